"""Committed list of known findings (never written at run time)."""
import os

PATH = os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), 'known_findings.txt')


class Finding:
    """KNOWN-FINDING lines: `known: property=<id> kind=<kind>
    match=<substring of the message> -- <what fails>`."""

    def __init__(self, kind, match, text):
        self.kind, self.match, self.text = kind, match, text

    def matches(self, kind, message):
        return kind == self.kind and self.match in message


def load(pid):
    out = []
    if not os.path.exists(PATH):
        return out
    with open(PATH) as f:
        for line in f:
            line = line.strip()
            if not line.startswith('known: '):
                continue            # comments and fixed: entries
            head, _, text = line[len('known: '):].partition(' -- ')
            d = dict(x.split('=', 1) for x in head.split(' ') if '=' in x)
            if d.get('property') == pid:
                out.append(Finding(d['kind'], d['match'], text))
    return out
