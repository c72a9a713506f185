"""Known findings: /verif/known_findings.json.  Entries {property, status: "known", case, label, what} suppress exactly that
case/label; entries with status "fixed" suppress nothing."""
import json
import os

_F = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
_C = None


def _load():
    global _C
    if _C is None:
        try:
            with open(_F) as f:
                _C = json.load(f)['findings']
        except FileNotFoundError:
            _C = []
    return _C


def entries(prop):
    return [e for e in _load() if e['property'] == prop and e.get('status') == 'known']


def match(prop, c):
    for e in entries(prop):
        if e['case'] == c['name'] and e['label'] == c['label'] and all(f[0] == e['label'] for f in c['failures']):
            return e
    return None
