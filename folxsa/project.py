"""Loads the sources of the analysed project (parsed only, never imported)."""
import ast
import hashlib
import os


class Project:
    def __init__(self, root):
        self.root = root
        self.modules, self.is_pkg, self.paths, self.sha = {}, {}, {}, hashlib.sha256()
        pkg = os.path.join(root, 'folx')
        if not os.path.isdir(pkg):
            raise FileNotFoundError(pkg)
        for d, dirs, files in os.walk(pkg):
            dirs[:] = sorted(x for x in dirs if x != '__pycache__')
            for f in sorted(files):
                if not f.endswith('.py'):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, root)[:-3].replace(os.sep, '.')
                is_pkg = rel.endswith('.__init__')
                name = rel[:-9] if is_pkg else rel
                src = open(p).read()
                self.sha.update(rel.encode() + src.encode())
                self.modules[name] = ast.parse(src, p)
                self.is_pkg[name] = is_pkg
                self.paths[name] = os.path.relpath(p, root)
