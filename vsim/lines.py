"""Lines of library code at which an asynchronous interrupt may be delivered.

An interrupt may land anywhere, but no code can be correct when it lands between
acquiring a resource and entering the block that releases it.  Those places are
left out, whatever the code looks like: headers of `with`, everything in a block
that comes before a `try ... finally` of the same block, the clean-up itself
(`finally`, `except` bodies), and context managers.
"""
import ast

from vsim import loader

_safe = None


def _stmts(block, out):
    last_fin = -1
    for k, s in enumerate(block):
        if isinstance(s, ast.Try) and s.finalbody:
            last_fin = k
    for k, s in enumerate(block):
        ok = k > last_fin
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            if s.name in ("__enter__", "__exit__", "__del__"):
                continue
            if any("contextmanager" in ast.dump(d) for d in s.decorator_list):
                continue
            _stmts(s.body, out)
        elif isinstance(s, ast.ClassDef):
            _stmts(s.body, out)
        elif isinstance(s, (ast.If, ast.For, ast.While)):
            if ok:
                _stmts(s.body, out)
                _stmts(s.orelse, out)
        elif isinstance(s, ast.With):
            _stmts(s.body, out)
        elif isinstance(s, ast.Try):
            _stmts(s.body, out)
            if ok:
                _stmts(s.orelse, out)
        elif ok and not isinstance(s, (ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal, ast.Pass)):
            out.update(range(s.lineno, s.end_lineno + 1))


def safe():
    """{file: set of lines}"""
    global _safe
    if _safe is None:
        _safe = {}
        for path in loader.package_files():
            with open(path, encoding="utf-8") as f:
                tree = ast.parse(f.read())
            out = set()
            _stmts(tree.body, out)
            # a line shared with a with header or a clean-up is not safe
            for node in ast.walk(tree):
                if isinstance(node, ast.With):
                    out -= set(range(node.lineno, node.body[0].lineno)) | {node.lineno}
                elif isinstance(node, ast.Try):
                    out.discard(node.lineno)
                    for b in [node.finalbody] + [h.body for h in node.handlers]:
                        for s in b:
                            out -= set(range(s.lineno, s.end_lineno + 1))
                    for h in node.handlers:
                        out.discard(h.lineno)
            _safe[path] = out
    return _safe


class Injector:
    """line_hook that raises `exc` at the n-th safe line event."""

    def __init__(self, n, make):
        self.n, self.make, self.count, self.at = n, make, 0, None
        self.safe = safe()

    def __call__(self, code, where):
        if self.at is not None or where not in self.safe.get(code.co_filename, ()):
            return
        if self.count == self.n:
            self.at = (code.co_name, where)
            raise self.make()
        self.count += 1


class Recorder:
    """line_hook that notes when each safe line is first reached, as the n of an Injector."""

    def __init__(self):
        self.count, self.seen, self.first = 0, set(), []
        self.safe = safe()

    def __call__(self, code, where):
        if where not in self.safe.get(code.co_filename, ()):
            return
        if (code.co_filename, where) not in self.seen:
            self.seen.add((code.co_filename, where))
            self.first.append(self.count)
        self.count += 1
