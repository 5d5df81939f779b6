"""
Known findings: which recorded genuine defect a violation is, if any.

An entry of known_findings.txt names the exact circumstances; a violation of the same property in other
circumstances is not matched.
"""


def match(items, sc, results, v):
    for d in items:
        if d.get("class") != v[0]:
            continue
        if d.get("contains") and d["contains"].replace("_", " ") not in v[1]:
            continue
        return d["text"]
    return None
