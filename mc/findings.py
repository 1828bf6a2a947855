"""known_findings.txt: 'known: property=<id> probe=<probe id> <what fails>' and 'fixed: property=<id> <commit> <what failed>'."""
import os, re
from .core import ROOT

def load(prop):
    out = {}
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) probe=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3).strip()
    return out
