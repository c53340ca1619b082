"""Known findings (known-findings.txt): genuine defects that are recorded."""
import os

FILE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known-findings.txt')


def load(prop):
    r = []
    if os.path.exists(FILE):
        for l in open(FILE):
            l = l.strip()
            if l.startswith('open: property=%s ' % prop):
                key, _, text = l[len('open: property=%s ' % prop):].partition(' :: ')
                r.append((key, text))
    return r


def match(kf, failure):
    for key, text in kf:
        if failure.get('key') == key:
            return text or key
    return None
