"""Driver: spec/Filename.tla - secure_filename."""
import os

from core import capture, dec_text, enc, val


def do(e):
    from verktyg.utils import secure_filename
    name = secure_filename(dec_text(e['text']))
    if type(name) is not str:
        return 'not text'
    # what the property is for: a name in a directory stays in it
    if name and os.path.dirname(os.path.normpath(os.path.join('/srv/up', name))) != '/srv/up':
        return 'leaves the directory: ' + name
    return name


def run(case):
    return [{'ret': val('<None>'), 'obs': 0}] + [{'ret': capture(do, e, conv=enc), 'obs': 0} for e in case['ops']]


PIECES = (list('aZ9._-/\\ ~!"#$%&\'()*+,:;<=>?@[]^`{|}') + ['\t', '\n', '\r', '\x0b', '\x0c', '\x00', '\x1c', '\x1f', '\x7f', '\x07'] +
          ['\x0e', '\x0f', '\x10', '\x11', '\x12', '\x13', '\x14', '\x15', '\x16', '\x17', '\x18', '\x19', '\x1a', '\x02', '\x03'] +
          ['..', '../', '..\\', './', '/etc/passwd', 'C:\\', 'name', '.txt', '.tar.gz', '__init__', 'CON', 'nul.txt', 'aux', '%2e%2e%2f', '-rf', '~root', '--', '_', '. .', ' .'])


def gen_cases(r, n):
    return [{'init': '', 'ops': [{'op': 'secure', 'text': ''.join(r.choice(PIECES) for _ in range(r.randint(0, 9)))} for _ in range(8)]} for _ in range(n)]
