"""Rewrites the "fixed:" lines of KNOWN_FINDINGS.txt from the history of /repo."""

import subprocess

# subject of the fix -> property
m = {
"upper-casing":"P04","running title of the references":"P11","quoted title contains an identifier":"P04","leak internal markup":"P01","end of a tag right before":"P01","looks like internal":"P01","numeration marker which":"P01","superscript":"P01","International Standard":"P05","punctuation after a handle":"P05","cached journals KB":"P03","matched by a regexp":"P17","statistics":"P19","KBs from other":"P03","are empty or have no end":"P15","plain text documents":"P15","end of pdftotext":"P15","give each URL":"P16","reproducible order":"P03","longer than a file name":"P14","blank values":"P01","blank lines":"P01","character after a numeration":"P04","double the semicolon":"P04","punctuation after a DOI":"P05","repeated collaboration":"P04","book of the KB":"P04","special journal without page":"P04","carrying authors over":"P04","removing a year":"P04","exponential":"P01","link right after":"P05","closing bracket after a handle":"P05","keep a handle in":"P08","longest report":"P06","JINR and":"P06","versions of arXiv":"P06","ep-th":"P06","two-part":"P06","header of the LHC":"P06","out of a word":"P04","empty reference after a semicolon":"P08","collaboration followed by a semicolon":"P18","blank lines of a string":"P12","on the line of the title":"P11","option of pdftotext":"P15","destinations dictionary":"P16","in the next column":"P16","padding of a line":"P17","dots and spaces":"P17","same collaboration":"P17","editor notation":"P18","find a publisher within":"P18","after an arXiv number and a space":"P07","words around a year":"P04","several semicolons":"P08","without journal title":"P07","books of all the papers":"P08","closing words or the scales":"P11","cut a link at a fragment":"P05","white space follows its punctuation":"P11","lower-case series letter":"P07"}
out=[]
for l in subprocess.check_output(["git","-C","/repo","log","--reverse","--format=%h %s"],text=True).splitlines():
    h,s=l.split(" ",1)
    if not s.startswith("fix: "): continue
    p=[v for k,v in m.items() if k in s]
    assert len(p)>=1,s
    out.append(f"fixed: property={p[-1]} {h} {s[5:]}")
keep=[l for l in open("/verif/KNOWN_FINDINGS.txt") if l.startswith("finding:")]
open("/verif/KNOWN_FINDINGS.txt","w").write("""# Known findings (finding: property=<id> key=<key> <what>) and repaired defects (fixed: ...).
# Repaired defects suppress nothing.  
"""+"\n".join(out)+"\n"+"".join(keep))
