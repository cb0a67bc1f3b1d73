"""Equivalent loop forms brought to one shape before the analysis.

Only rewritings that keep the meaning for every input are done:
  while True: if C: break; ...            ->  while not C: ...
  while True: try: x = next(it) except StopIteration: break; ...
  while (x := next(it, None)) is not None: ...
  while True: x = next(it, None); if x is None: break; ...
                                          ->  for x in it: ...
"""
import ast


def _is_true(n):
    return isinstance(n, ast.Constant) and bool(n.value) is True


def _next_of(n, nargs):
    """name of the iterator of a call next(<name>[, None])"""
    if (
        isinstance(n, ast.Call)
        and isinstance(n.func, ast.Name)
        and n.func.id == "next"
        and not n.keywords
        and len(n.args) == nargs
        and isinstance(n.args[0], ast.Name)
        and (nargs == 1 or (isinstance(n.args[1], ast.Constant) and n.args[1].value is None))
    ):
        return n.args[0].id
    return None


def _uses(body, name):
    return any(isinstance(x, ast.Name) and x.id == name for b in body for x in ast.walk(b))


def _is_break(body):
    return len(body) == 1 and isinstance(body[0], ast.Break)


def _none_test(t, name, is_none):
    return (
        isinstance(t, ast.Compare)
        and len(t.ops) == 1
        and isinstance(t.ops[0], ast.Is if is_none else ast.IsNot)
        and isinstance(t.comparators[0], ast.Constant)
        and t.comparators[0].value is None
        and (name is None or (isinstance(t.left, ast.Name) and t.left.id == name))
    )


class Norm(ast.NodeTransformer):
    def visit_While(self, node):
        self.generic_visit(node)
        new = self.rewrite(node)
        return node if new is None else ast.fix_missing_locations(ast.copy_location(new, node))

    def rewrite(self, node):
        body = node.body
        if _is_true(node.test) and body:
            f = body[0]
            if isinstance(f, ast.Try) and len(f.body) == 1 and isinstance(f.body[0], ast.Assign) and not f.orelse and not f.finalbody:
                a = f.body[0]
                it = _next_of(a.value, 1)
                h = f.handlers
                if (
                    it
                    and len(a.targets) == 1
                    and len(h) == 1
                    and isinstance(h[0].type, ast.Name)
                    and h[0].type.id == "StopIteration"
                    and _is_break(h[0].body)
                    and not _uses(body[1:], it)
                ):
                    return ast.For(target=a.targets[0], iter=ast.Name(id=it, ctx=ast.Load()), body=body[1:] or [ast.Pass()], orelse=[])
            if isinstance(f, ast.Assign) and len(f.targets) == 1 and isinstance(f.targets[0], ast.Name) and len(body) > 1:
                it = _next_of(f.value, 2)
                g = body[1]
                if it and isinstance(g, ast.If) and _none_test(g.test, f.targets[0].id, True) and _is_break(g.body) and not g.orelse and not _uses(body[1:], it):
                    return ast.For(target=f.targets[0], iter=ast.Name(id=it, ctx=ast.Load()), body=body[1:], orelse=[])
            if isinstance(f, ast.If) and _is_break(f.body) and not f.orelse:
                return ast.While(test=ast.UnaryOp(op=ast.Not(), operand=f.test), body=body[1:] or [ast.Pass()], orelse=[])
            return None
        if _none_test(node.test, None, False) and isinstance(node.test.left, ast.NamedExpr):
            w = node.test.left
            it = _next_of(w.value, 2)
            if it and not _uses(body, it):
                stop = ast.If(
                    test=ast.Compare(left=ast.Name(id=w.target.id, ctx=ast.Load()), ops=[ast.Is()], comparators=[ast.Constant(value=None)]),
                    body=[ast.Break()],
                    orelse=[],
                )
                if node.orelse:
                    return None
                return ast.For(target=ast.Name(id=w.target.id, ctx=ast.Store()), iter=ast.Name(id=it, ctx=ast.Load()), body=[stop] + body, orelse=[])
        return None


def normalise(tree):
    return ast.fix_missing_locations(Norm().visit(tree))
