# Runs under Jython 2.7 (the interpreter that runs privcount). Parses each
# named module of /repo/privcount with the interpreter's own parser and writes
# the AST, node for node, as JSON. Nothing is rewritten or dropped except
# comments and layout.
import ast, json, sys

def conv(n):
    if isinstance(n, ast.AST):
        d = {'_': n.__class__.__name__}
        ln = getattr(n, 'lineno', None)
        if ln is not None:
            d['line'] = ln
        for f in (n._fields or ()):
            d[f] = conv(getattr(n, f, None))
        return d
    if isinstance(n, (list, tuple)):
        return [conv(x) for x in n]
    if isinstance(n, bool) or n is None:
        return n
    if isinstance(n, long):
        return {'$long': str(n)}
    if isinstance(n, int):
        return n
    if isinstance(n, float):
        return {'$float': repr(n)}
    if isinstance(n, unicode):
        return {'$uni': [ord(c) for c in n]}
    if isinstance(n, str):
        return {'$s': n.decode('latin-1')}
    if n.__class__.__name__ == 'complex':
        return {'$complex': repr(n)}
    # enum-like (operator/context) values
    return {'_': str(n)}

def main():
    repo, out = sys.argv[1], sys.argv[2]
    res = {}
    for mod in sys.argv[3:]:
        p = repo + '/privcount/' + mod + '.py'
        src = open(p, 'rb').read()
        try:
            res[mod] = conv(ast.parse(src, p))
        except SyntaxError, e:
            res[mod] = {'_': 'SyntaxError', 'msg': str(e)}
    f = open(out, 'wb')
    f.write(json.dumps(res, ensure_ascii=True))
    f.close()

main()
