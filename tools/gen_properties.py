'''Writes properties.jsonl (one place to edit the property texts).'''
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None):
    a={'files':['pdf2docx/'+f for f in files],'mechanism':[{'name':n,'where':w} for n,w in mech]}
    if state: a['state']=[{'name':n,'meaning':m} for n,m in state]
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=a))

LAY='The existing tests compare the parsed layout of one page of some sample files; '
p('C01','Exactly the selected pages are processed',
 'Conversion and table extraction process exactly the pages asked for: the listed page numbers that exist in the document or, when no list is given, the pages from start up to but excluding end, where an omitted bound means the document boundary. A selection that matches no page selects nothing, never the whole document. With one-based counting, start, end, every listed page and the debugging page mean exactly one less than given, for every command.',
 ['inputs','configurations'],'for every document length, every start/end/pages combination (including empty lists, zero, out-of-range values and omitted bounds) and both index bases',
 LAY+'no test passes an empty or out-of-range selection, and none uses one-based indexes.',
 ['converter.py','main.py'],[('page selection','converter.py Converter._page_indexes, Converter.parse'),('index base','main.py PDF2DOCX.convert/debug/table')])
p('C02','Multi-process conversion does the same work as single-process conversion',
 'With multi-processing on, every selected page is parsed by exactly one worker with the same settings and the same source file, all results are merged back into the page they belong to, and the document is then built the same way as without multi-processing. This holds for any number of workers and pages, and conversions running at the same time do not read, overwrite or delete each other\'s exchange files.',
 ['schedules','configurations','inputs'],'for every worker count, page count, selection and every interleaving of concurrent conversions sharing a working directory',
 'No stable test runs the multi-processing mode at all; interleavings of two conversions cannot be enumerated by tests.',
 ['converter.py'],[('partition','converter.py Converter._parse_pages_per_cpu'),('merge','converter.py Converter._parse_and_create_pages_with_multi_processing, Converter.restore')],
 [('pages-*.json','exchange files holding the parsed pages of one worker')])
p('C03','A stored layout restores completely',
 'Everything about a parsed page that influences the generated document or the extracted tables is written when the layout is stored, and is read back into the same place when it is restored (text, fonts, sizes, colors, styles, links, images, paragraph formats, tab stops, tables of either kind with their cells, margins and page size). Each stored block comes back as the same kind of block.',
 ['inputs','histories'],'for every parsed page and every block, span, cell and shape kind in it',
 LAY+'no test writes a layout, reads it back and generates a document from it.',
 ['page/Page.py','page/Blocks.py','common/Block.py','text/TextSpan.py','text/Line.py','text/Char.py','image/Image.py','table/Cell.py','table/Row.py','table/TableBlock.py','shape/Shape.py'],
 [('store/restore pairs','every class with store() and a constructor or restore() taking a dict'),('block dispatch','page/Blocks.py Blocks.restore'),('span dispatch','text/Spans.py Spans.restore')])
p('C04','Only the requested files are written, and the source PDF never is',
 'The source PDF is never deleted, overwritten or saved to; the only files created, replaced or deleted are the docx asked for (by default the PDF path with its extension replaced), the layout file asked for and, in debug mode only, the debug PDF and layout file, besides private temporary files. An existing docx is not removed when there is nothing to write in its place.',
 ['inputs','configurations','fault_sequences'],'for every input file name (any extension spelling, any directory name), every option combination and every page failure',
 'Tests use lower-case .pdf names with explicit outputs only and never look at other files.',
 ['converter.py','common/share.py','main.py'],[('docx replacement','converter.py Converter.make_docx'),('layout file','converter.py Converter.serialize, debug_page'),('debug pdf','common/share.py debug_plot')])
p('C05','A failing page is isolated and left out of the result',
 'If parsing or creating one page fails, the other selected pages are still parsed and created, and the document is still written as long as one page was parsed. A page whose latest parsing did not complete is not part of any output: neither the document, the stored layout nor the extracted tables.',
 ['fault_sequences','inputs','histories'],'for every page at which any step of loading, parsing or creating raises an exception, in serial and parallel mode, on first and repeated parsing',
 'No test makes a page fail; the number of failing points is unbounded.',
 ['converter.py','page/Page.py'],[('isolation','converter.py loops in Converter.parse and Converter.make_docx'),('completion flag','page/Page.py Page.parse, Page._load_source, Page.finalized')],
 [('finalized','page is completely parsed or restored')])
p('C06','Every documented option exists, has its documented default and takes effect',
 'Every configuration parameter documented for conversion is accepted, has the documented default when not given, and its value (user-given or default) is what the step it is documented for actually works with; no option is ignored, replaced by another option\'s value or by a fixed number, or lost on the way to nested table cells or worker processes. An option the user gives always wins over the default.',
 ['configurations'],'for every documented option and every value a user gives it',
 'Tests run with default settings only.',
 ['page/Page.py','page/Layout.py','converter.py','page/Blocks.py','shape/Shapes.py','table/TablesConstructor.py','text/TextBlock.py','page/RawPage.py'],
 [('defaults','page/Page.py Page.init_settings'),('documentation','converter.py Converter.convert docstring'),('distribution','page/Layout.py')])
p('C07','Options and data passed in by the caller are not modified',
 'No operation changes an object the caller passed in: the configuration dict, the list of pages, and the layout data given to restore are the same after the call as before it, so that they can be used again.',
 ['inputs','histories'],'for every public operation and every argument object',
 'Tests create fresh arguments for each call and never compare them afterwards.',
 ['converter.py','main.py','page/Page.py','page/Layout.py','text/TextBlock.py','text/Line.py'],
 [('kwargs handling','converter.py Converter.debug_page/convert'),('settings copy','page/Page.py Page.init_settings'),('raw handling','constructors taking a raw dict')])
p('C08','A result does not depend on what was processed before',
 'Parsing, converting or restoring gives the same result whatever the same converter or process handled earlier: parsing a page again starts from its source with the new settings and leaves nothing of the earlier run, converting again includes only the pages selected this time, and the rotation, settings, images, shapes or links of one page or file never reach another.',
 ['histories'],'for every sequence of parse/convert/extract/restore operations on one or several converters in a process',
 'Tests process each page once per converter; histories are unbounded.',
 ['page/Page.py','page/Layout.py','page/Blocks.py','shape/Shapes.py','common/Element.py','page/RawPage.py','converter.py','common/share.py'],
 [('page reset','page/Page.py Page.parse, Page.reset; page/Blocks.py and shape/Shapes.py restore'),('process-wide rotation','common/Element.py Element.set_rotation_matrix'),('cached properties','common/share.py lazyproperty')],
 [('ROTATION_MATRIX','rotation of the page being loaded, shared by the process')])
p('C09','Output does not depend on chance',
 'The same PDF, options and library versions give the same document content and the same tables on every run: neither random numbers, the clock, memory addresses, the hash seed, directory order nor the order in which workers finish influence the result.',
 ['schedules','inputs'],'for every input, hash seed, process layout and worker completion order',
 'A test observes one run on one machine; differences between runs are what matters.',
 ['text/Lines.py','common/share.py','common/Collection.py','page/RawPage.py','converter.py'],
 [('line identity','text/Lines.py Lines.append'),('grouping','common/share.py graph_bfs, common/Collection.py group'),('random color','common/share.py rgb_component_from_name (debug plot only)')])
p('C10','Each converted page gets its own section with the page\'s size and margins',
 'Every converted page starts a new section on a new page, except the first one which uses the initial section, in document order. The section has the width and height of the PDF page as displayed (rotation considered) and its left, right, top and bottom margins are the margins computed for the respective side of that page.',
 ['inputs'],'for every page of every document, in any rotation',
 LAY+'no test looks at the sections of a generated document.',
 ['page/Page.py','page/RawPage.py'],[('section','page/Page.py Page.make_docx'),('size','page/RawPage.py RawPage.raw_dict'),('margin','page/Page.py Page._cal_margin')])
p('C11','Text runs carry the text, font and style of the PDF span',
 'Every text span of a converted page is written as a run with exactly the span\'s text, font name (also for East Asian text), color, size (with character scaling where docx cannot express the size), bold, italic and superscript exactly as flagged in the PDF. Every highlight, underline and strike-through recognized for a span is written to its run, with the color of the recognized shape for highlight and underline, whatever other styles the span has.',
 ['inputs'],'for every span and every combination of flags and recognized styles',
 LAY+'no test reads the runs of a generated document.',
 ['text/TextSpan.py','text/Char.py','common/docx.py','text/Line.py','text/Lines.py'],
 [('run creation','text/TextSpan.py TextSpan.make_docx/_set_text_format'),('style recognition','text/TextSpan.py TextSpan.split/_parse_text_format'),('xml helpers','common/docx.py set_char_*')])
p('C12','Linked text keeps its link',
 'Text covered by a web link annotation in the PDF is written as an external hyperlink with exactly that annotation\'s address and the text itself, in page text as well as in table cells, besides any other style of the text. Link areas are never merged, dropped as duplicates or taken for table borders, shading, highlights or underlines.',
 ['inputs'],'for every link annotation and every text it covers, at any nesting level',
 'No sample in the test suite checks hyperlinks in the generated document.',
 ['page/RawPage.py','shape/Shape.py','shape/Shapes.py','page/Layout.py','text/TextSpan.py','text/TextBlock.py','common/docx.py'],
 [('extraction','page/RawPage.py RawPage._preprocess_hyperlinks'),('carrying','shape/Shapes.py, page/Layout.py Layout._parse_text_format'),('writing','text/TextSpan.py TextSpan.make_docx; common/docx.py add_hyperlink')])
p('C13','Paragraphs carry the computed alignment, spacing, indents and tab stops',
 'Every text block becomes a paragraph whose alignment is the one computed for the block (left, right, center or justified), whose space before and after, line spacing, left and right indent and first line indent are the ones computed for that block and side, and whose tab stops are the computed ones relative to its left indent. Hard line breaks appear exactly after the lines computed to need one.',
 ['inputs'],'for every block and every computed value',
 LAY+'the paragraph formats in the generated document are never read back.',
 ['text/TextBlock.py','text/Lines.py','text/Line.py','common/docx.py','page/Blocks.py'],
 [('paragraph format','text/TextBlock.py TextBlock.make_docx'),('tabs','text/Lines.py Lines.make_docx, common/docx.py add_stop')])
p('C14','Tables keep their structure, borders, shading and sizes',
 'Every table becomes a docx table with the same numbers of rows and columns in which each merged cell spans the same rows and columns, each cell has the width, border width and border color computed for the respective side and the background color of its shading (including black, none if it has none), and each row has exactly the computed height. Every cell is filled with its own content, and text in vertical direction is marked as such.',
 ['inputs'],'for every table, row, cell and side',
 LAY+'the tables of the generated document are never read back.',
 ['table/Cell.py','table/Row.py','table/TableBlock.py','table/TableStructure.py','page/Blocks.py','common/docx.py'],
 [('cell style','table/Cell.py Cell._set_style/make_docx'),('structure','table/TableStructure.py TableStructure.to_table_block'),('xml helpers','common/docx.py set_cell_*')])
p('C15','Every kept image is written with its own bytes, size and place',
 'Every image of a converted page is written from exactly its own image data, with the width of its area on the page; inline images at their place in the text flow, floating images behind the text at their own position. An image whose format is not supported is skipped without affecting the rest of its page.',
 ['inputs'],'for every raster image, recovered image and clipped vector graphic, inline or floating',
 LAY+'the images of the generated document are never read back.',
 ['image/Image.py','image/ImageBlock.py','image/ImageSpan.py','image/ImagesExtractor.py','common/docx.py','page/RawPage.py','page/Blocks.py'],
 [('inline','image/Image.py Image.make_docx, common/docx.py add_image'),('floating','image/ImageBlock.py ImageBlock.make_docx, common/docx.py add_float_image'),('extraction','image/ImagesExtractor.py')])
p('C16','Generated documents are structurally sound',
 'In every generated document each table cell contains a paragraph, two tables in a row are separated by a paragraph, and the content of a page never ends with a table. Every hyperlink refers to an existing external relationship and every XML fragment inserted has the namespace declarations it uses.',
 ['inputs'],'for every layout, including empty cells, adjacent tables, nested tables and pages consisting of a table only',
 'No test opens a generated document.',
 ['page/Blocks.py','table/Cell.py','common/docx.py'],[('page end and adjacent tables','page/Blocks.py Blocks.make_docx'),('cell content','table/Cell.py Cell.make_docx')])
p('C17','Extracted tables mirror the table cells',
 'Table extraction returns, for every top-level table of the selected pages in page order, one list per row with one entry per cell: the text of the cell\'s blocks in order, nothing (None) for a cell merged into another one and a placeholder for a nested table. Tables without explicit borders are included if and only if asked for by the option.',
 ['inputs','configurations'],'for every page selection, table and option value',
 'One stable test extracts tables of one sample page with default options.',
 ['converter.py','page/Page.py','table/TableBlock.py','table/Cell.py','text/TextBlock.py'],
 [('collection','converter.py Converter.extract_tables; page/Page.py Page.extract_tables'),('cell text','table/TableBlock.py text; table/Cell.py text')])
p('C18','Any text, font name, address or color of a PDF can be written',
 'Characters that XML does not allow never reach the generated document from text, font names or link addresses of the PDF and never make a page or the file fail; no text from the PDF is ever interpreted as XML markup. Colors are always written as six hexadecimal digits, and a tiny font size does not make a page fail.',
 ['inputs'],'for every string, number and color a PDF can contain',
 'Sample files contain ordinary text only.',
 ['text/Char.py','text/TextSpan.py','shape/Shape.py','common/share.py','common/docx.py','table/Cell.py'],
 [('sanitizing','common/share.py xml_text and its uses'),('xml fragments','common/docx.py parse_xml calls'),('size','text/TextSpan.py TextSpan._set_text_format')])
p('C19','Opened documents, files and worker processes are released on every exit',
 'Every PDF opened by a command or a worker process is closed, every file opened for a layout is closed, every worker pool is shut down and temporary exchange files are removed, whether the operation succeeds or raises an error at any point.',
 ['fault_sequences','configurations'],'for every operation and every point at which it can fail',
 'Tests exercise the success path only and do not observe handles or processes.',
 ['main.py','converter.py'],[('commands','main.py PDF2DOCX.convert/debug/table'),('workers and pool','converter.py Converter._parse_pages_per_cpu and the multi-processing method'),('layout files','converter.py Converter.serialize/deserialize')])
p('C20','Regrouping never loses content',
 'Wherever blocks, lines, spans, characters or shapes are split, joined, sorted, moved into table cells or put back, every element goes into the result, except those the documentation says are dropped (overlapping duplicates, blank or rotated text, elements out of the page, tiny shapes). In particular the last group of a loop, the part before and after a split, the lines outside a table and elements matching no table are kept.',
 ['inputs'],'for every arrangement of blocks, lines, spans and tables on a page',
 LAY+'boundary arrangements such as a trailing group or a partly covered block are rarely in them.',
 ['page/Blocks.py','text/Lines.py','text/Line.py','text/TextSpan.py','shape/Shapes.py','common/Collection.py','table/Cell.py'],
 [('assigning to tables','page/Blocks.py Blocks.assign_to_tables/_assign_block_to_tables; shape/Shapes.py assign_to_tables'),('joining and splitting','text/Lines.py join; page/Blocks.py split_back/join_horizontally; text/TextSpan.py split')])
p('C21','Page rotation is applied exactly once to everything on the page',
 'On a rotated page every text, image and text direction taken from the un-rotated source coordinates is transformed by the rotation of that very page exactly once, while shapes, derived boxes and restored layouts, which are already in displayed coordinates, are never transformed again.',
 ['inputs','histories'],'for every page rotation, element kind and creation path (source, derived, restored)',
 'No sample page in the test suite is rotated.',
 ['common/Element.py','text/Line.py','shape/Shape.py','page/RawPage.py','converter.py'],
 [('transformation','common/Element.py Element.__init__; text/Line.py Line.__init__; shape/Shape.py Shape.__init__'),('setting','page/RawPage.py RawPage.raw_dict; converter.py Converter.restore')])
p('C22','Debug mode only observes',
 'Turning debug mode on never changes the converted document or the parsed layout: plotting reads the layout and writes only to the debug PDF, and every parsing step returns and works on the same objects as without it.',
 ['configurations','inputs'],'for every page and every plotted step',
 'No stable test uses debug mode and compares its result with a normal run.',
 ['common/share.py','page/Page.py','page/RawPage.py','common/Element.py','text/TextBlock.py','shape/Shapes.py','table/TableBlock.py','image/Image.py','shape/Path.py','shape/Paths.py'],
 [('plot decorator','common/share.py debug_plot'),('plot methods','plot() of every layout class')])
p('C23','Content of table cells is processed like content of the page',
 'Text, images, links, shapes and nested tables inside a table cell get the same processing as on the page, with the same settings, to any nesting depth: nested tables are detected, text styles and links are recognized, spacing is computed relative to the cell and everything is written into the cell.',
 ['inputs'],'for every nesting depth and every cell of every table',
 LAY+'deeper nesting and links or styles in cells are not covered.',
 ['page/Layout.py','table/TableBlock.py','table/Cell.py','page/Blocks.py','shape/Shapes.py'],
 [('recursion','page/Layout.py Layout.parse; table/TableBlock.py TableBlock.parse'),('moving into cells','table/TableBlock.py assign_blocks/assign_shapes; table/Cell.py')])
# not decided here
p('C30','The rendered document looks like the PDF',
 'Opened in a word processor, every converted page shows the same content at the same place and with the same look as the PDF page.',
 ['inputs'],'for every PDF page','Tests compare parsed layouts of samples, not renderings.',['page/Layout.py'],[('whole pipeline','pdf2docx')])
p('C31','Tables are recognized where a reader sees them',
 'Every bordered table and every aligned column layout in the PDF is recognized as one table with the rows, columns and merged cells a reader sees, and nothing else is.',
 ['inputs'],'for every arrangement of strokes and text','Only the arrangements of a few samples are tested.',['table/TablesConstructor.py','table/TableStructure.py','table/Border.py'],[('table recognition','table/TablesConstructor.py')])
p('C32','Connected rectangles are grouped correctly',
 'Grouping by connectivity puts two elements in one group if and only if a chain of overlapping boxes (within the tolerance) connects them.',
 ['inputs'],'for every set of rectangles','Tests group the rectangles of samples only.',['common/share.py','common/Collection.py'],[('rectangle intersection','common/share.py solve_rects_intersection, graph_bfs')])
p('C33','Conversion terminates in reasonable time',
 'Conversion of any PDF ends, in time that grows moderately with the content of a page.',
 ['inputs'],'for every PDF','Tests cover small samples.',['common/Collection.py','page/Layout.py'],[('recursion into cells','page/Layout.py')])
p('C34','Text is in reading order',
 'The text of a page and of each cell appears in the order a reader would read it.',
 ['inputs'],'for every arrangement of text','Tests compare positions in samples only.',['text/Lines.py','common/Collection.py'],[('sorting','text/Lines.py sort')])
p('C35','Colors are converted exactly',
 'Gray, RGB and CMYK colors of strokes, fills and text result in the sRGB value a PDF viewer would show.',
 ['inputs'],'for every color value','A few colors are sampled.',['common/share.py'],[('color conversion','common/share.py rgb_value')])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for q in P:
        assert len(q['title'])<=80,q['title']
        f.write(json.dumps(q)+'\n')
print(len(P))
