import subprocess
T='''b8dd4cd C02,C03,C05,C06 Walk and the writers used a stale order of languages after a Set that followed an enumeration
33f01b3 C07 resource directories with more than 65535 entries (names + ordinals) lost some of them
4269ac2 C16 opaque images in cursors had an AND mask appended although BitCount was the one of the DIB
73573fe C14,C23 panic on truncated cursor images
6a6f5e0 C13,C14 a failed SetIcon or SetCursor left images behind
158d1d6 C14 SetCursor wrote wrong sizes in group entries for cursors loaded by LoadCUR
397705b C15 SaveICO did not write the real sizes of images
8f5816f C06,C09,C23 panics on malformed executables, without a .reloc section header or with zero alignments
9e59ccf C23 section bounds overflowed
7ea7fd1 C08,C09 sections with no raw data were moved or took the place of the resources
56442cb C09 no room check for a section header after the .rsrc section was abandoned
7fa27a5 C08,C11 data after the sections was lost or duplicated when a section was added
4190bc2 C08,C11 pointers to certificates and to the symbol table were not shifted or wrongly shifted
a67bfb9 C09 sections following .rsrc were moved wrongly when virtual and raw sizes differ
a528b9c C12 padding by seeking in the destination was wrong with pipes, existing files and append mode
83e25d0 C12 I/O errors were ignored: reads of the checksum pass and seeks
96b1372 C17,C19,C23 panics on version info: empty string leaf, null table in JSON, GetMainTranslation of an empty table
e16a873 C17 version strings that end with no NUL or with several were truncated or lost
651e8a7 C21 manifests were not well-formed or lost texts that contain control characters
10311ba C21 supported OS identifiers in capital letters were not recognized
6ee335c C16 cursors made from a custom image type with the NRGBA colour model lost their transparency
98c673d C16 very thin images could not be resized to make an icon
c50b0af C16,C23 sizes of icons that are zero, negative or huge panicked, were ignored or exhausted the memory
ea55afd C21 line feeds in the identity name of a manifest were read back as spaces
1136705 C13 an icon read from a group that gives a wrong image size was added with that wrong size
cfe625c C09 the size of initialized data counted the size of a new .rsrc section twice
b05c596 C09 adding a section header could make the headers overlap the first section in memory, or exceed their declared size
f296b53 C03,C06 tables with more than 65,535 entries (65,536 languages of a resource, names) and names of more than 65,535 units were written with truncated counts
da0dc73 C04 objects with more than 65,535 resources had a truncated relocation table, and a symbol table that was not where the header said'''
print('# Genuine defects of tc-hib/winres that the checks found.')
print('# "fixed:" entries are repaired in /repo, and suppress nothing.')
print('# "finding: property=<id> session=<session> event=<n> <what fails>" entries would be findings that are not repaired: there is none.')
for l in T.split('\n'):
    c,ps,w=l.split(' ',2)
    full=subprocess.run(['git','-C','/repo','rev-parse','--short=12',c],capture_output=True,text=True).stdout.strip()
    for q in ps.split(','):
        print(f'fixed: property={q} {full} {w}')
