'''Write MANIFEST.json: claims every property with a rule module.'''
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    'C01': 'static analysis: whole-program abstract interpretation; the page selection is extracted as an expression over the arguments and folded over a table of arguments against the documented selection',
    'C02': 'static analysis: abstract interpretation; jobs and exchange paths extracted as expressions and folded over a table; must-facts for waiting before reading',
    'C03': 'static analysis: abstract interpretation; composition of the extracted storing and restoring expressions for every field the output depends on',
    'C04': 'static analysis: effect analysis of all file effects in all call contexts; paths extracted as expressions over the arguments; dominating tests',
    'C05': 'static analysis: exception-flow analysis and typestate of the page on all normal and exceptional paths',
    'C06': 'static analysis: option provenance (label flow) from defaults and caller to the documented steps, through all call contexts',
    'C07': 'static analysis: effect analysis with points-to: in-place changes whose receiver may alias an object of the caller',
    'C08': 'static analysis: must-reset dataflow for accumulating fields of long-living objects and process-wide state',
    'C09': 'static analysis: taint analysis from sources of chance to the result, with control dependence and order-sensitivity of iterations',
    'C10': 'static analysis: provenance and extracted expressions per section attribute and side; path conditions of section creation',
    'C11': 'static analysis: provenance and extracted expressions per run attribute; enumeration of style sequences on the abstract program',
    'C12': 'static analysis: provenance of addresses and text; exclusion analysis of link shapes over the tests on each path',
    'C13': 'static analysis: provenance and extracted expressions per paragraph attribute and side; path conditions of line breaks',
    'C14': 'static analysis: provenance and extracted expressions for table writing and construction; completeness of loops',
    'C15': 'static analysis: provenance of image bytes, box and format; path analysis for unsupported images',
    'C16': 'static analysis: abstract evaluation of the block sequence; well-formedness analysis of XML templates; provenance of relation ids',
    'C17': 'static analysis: abstract interpretation of the extraction on abstract pages; result expression compared with the specification',
    'C18': 'static analysis: taint analysis with sanitizers from source text to XML; extracted format expressions of colors and sizes',
    'C19': 'static analysis: resource typestate on all normal and exceptional paths',
    'C20': 'static analysis: path-sensitive ownership analysis of collections over a finite abstract domain',
    'C21': 'static analysis: coordinate-system (unit) analysis of all boxes, with must-facts for the matrix in force',
    'C22': 'static analysis: effect analysis of debug-only code and control dependence on debug settings',
    'C23': 'static analysis: ownership and typestate analysis of layout parsing for pages and cells, compared step by step',
}
NA = {
    'C30': 'The look of a rendered page depends on fonts, a word processor and the content of the PDF: no static argument over this source bounds it.',
    'C31': 'Whether a recognized table is the one a reader sees is a judgement about page content, not a fact about paths of the code.',
    'C32': 'Correctness of the connectivity search depends on geometric runtime values (graph contents) for every input; no structural necessary condition beyond those of C20 is in the shape of the code.',
    'C33': 'Termination and running time depend on page content; loops are driven by data no static argument in reach bounds.',
    'C34': 'Reading order depends on comparing runtime coordinates of all lines of a page; order correctness is not visible in the shape of the code.',
    'C35': 'Equality of converted colors is numeric over all inputs and refers to what PDF viewers do; beyond the shape of the color values (C18) nothing static decides it.',
}
NOTE = ('Decides the structural clauses listed under this property in DESIGN.md for all paths of the current source; obligations whose '
        'deciding expression is outside the analysed fragment are counted as undecided and not claimed. Trusts the library model (pdfai/model.py).')
props = [json.loads(x) for x in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    pid = p['id']
    if os.path.exists(os.path.join(HERE, 'rules', pid.lower() + '.py')):
        checks.append({'property': pid, 'quick_cmd': f'python3 check.py {pid}', 'thorough_cmd': f'python3 check.py {pid} --tier thorough',
                       'technique': TECH.get(pid, 'static analysis: whole-program abstract interpretation (points-to, provenance, typestate) with property-specific rules'),
                       'level': 'other', 'level_note': NOTE})
    else: na.append({'property': pid, 'reason': NA.get(pid, 'not covered yet')})
json.dump({'version': 1, 'setup_cmd': 'python3 -c "import sys; assert sys.version_info >= (3, 9)"', 'checks': checks, 'not_applicable': na,
           'notes': 'One analyzer (pdfai/), one rule module per property (rules/), run as check.py <property>. Standard library only.'},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
