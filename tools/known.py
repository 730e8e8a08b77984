"""writes the entries of known_findings.json; run by hand, never by a check"""
import json, sys
sys.path[:0] = ["/verif/mc", "/verif/mc/props"]
import core
W = [("C24", ("notread", "sort"), "`cdx sort --text-in n, -k 2` on the lines a,3 and b,1 leaves them as they are: sort does not read --text-in when it takes keys from lines"),
     ("C24", ("notread", "join"), "`cdx join --text-in n, -k 1` of a,3 with a,7 gives nothing: join does not read --text-in"),
     ("C24", ("notread", "binsearch"), "`cdx binsearch --text-in n, b` on the lines a,3 and b,1 finds nothing: binsearch does not read --text-in"),
     ("C24", ("mixed", "cgrep"), "`cdx cgrep --text-out y,` writes the header in the format asked for and the lines as they were read"),
     ("C24", ("mixed", "uniq"), "`cdx uniq --text-out y,` without aggregates writes the header in the format asked for and the lines as they were read"),
     ("C24", ("mixed", "paste"), "`cdx paste --text-out y,` writes the header in the format asked for and the lines as they were read"),
     ("C24", ("mixed", "cat"), "`cdx cat --text-out y, -b` writes header and line number in the format asked for and the rest of the lines as they were read")]
p = "/verif/known_findings.json"
d = json.load(open(p))
d["findings"] = [dict(property=a, key=core.h(core.json.dumps(core.enc(c))).hex(), case=core.enc(c), what=w) for a, c, w in W]
json.dump(d, open(p, "w"), indent=1)
