"""known_findings.txt: genuine defects that are recorded, not repaired.

    fixed: property=<id> <commit> <what failed>      (suppresses nothing)
    known: property=<id> class=<class> match=<regex> :: <what fails>
"""
import os
import re

PATH = os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), 'known_findings.txt')


def load(pid):
    out = []
    try:
        lines = open(PATH).read().splitlines()
    except FileNotFoundError:
        return out
    for line in lines:
        m = re.match(r'known: property=(\S+) class=(\S+) match=(.*?) :: (.*)',
                     line)
        if m and m.group(1) == pid:
            out.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    return out


def matcher(pid):
    entries = load(pid)

    def known(cls, msg):
        for c, rx, text in entries:
            if c == cls and rx.search(msg):
                return text
        return None
    return known
