"""Known findings: genuine defects recorded in known_findings.txt."""
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILE = os.path.join(HERE, "known_findings.txt")


def load(pid):
    """Lines `finding: property=<id> kind=<kind> match=<text> | <what fails>`."""
    out = []
    if not os.path.exists(FILE):
        return out
    for line in open(FILE):
        line = line.strip()
        if not line.startswith("finding:"):
            continue
        head, _, text = line[len("finding:"):].partition("|")
        head, _, match_ = head.partition("match=")
        kv = dict(p.split("=", 1) for p in head.split())
        if kv.get("property") == pid:
            out.append({"kind": kv["kind"], "match": match_.strip(), "text": text.strip()})
    return out


def match(findings, kind, detail):
    for f in findings:
        if f["kind"] == kind and f["match"] in detail:
            return f
    return None
