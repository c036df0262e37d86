"""Model of the part of pathlib that the code under test uses: absolute POSIX path -> file URI.
Every explored path is replayed against the real pathlib, so a wrong model shows up as a disagreement."""
import os

_SAFE = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_.-~/'


class PurePath(object):
    def __init__(self, *parts):
        self._path = os.path.join(*parts) if len(parts) != 1 else parts[0]

    def _norm(self):
        p = self._path
        root = ''
        if p.startswith('/'):
            root = '//' if (p.startswith('//') and not p.startswith('///')) else '/'
        segs = [s for s in p.split('/') if s != '' and s != '.']
        return root, segs

    def __str__(self):
        root, segs = self._norm()
        return root + '/'.join(segs) or '.'

    def is_absolute(self):
        return self._path.startswith('/')

    def as_uri(self):
        root, segs = self._norm()
        if not root:
            raise ValueError("relative path can't be expressed as a file URI")
        out = []
        for c in root + '/'.join(segs):
            if c in _SAFE:
                out.append(c)
            else:
                out.append(''.join(['%{:02X}'.format(b) for b in str(c).encode('utf-8')]))
        return 'file://' + ''.join(out)

    def as_posix(self):
        root, segs = self._norm()
        return root + '/'.join(segs) or '.'


class Path(PurePath):
    pass


PurePosixPath = PosixPath = Path
