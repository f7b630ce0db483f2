'''Static analyzer for pdf2docx: see DESIGN.md.'''
