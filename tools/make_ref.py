"""Writes /verif/ref/qp: the accepted definition of every function of the package, as parsed syntax
without documentation.  Run by hand when the accepted behaviour changes; no check runs it."""
import ast, os, shutil, sys

SRC, DST = "/repo/src/qp", "/verif/ref/qp"
SKIP = {"_version.py", "version.py"}


def strip(tree):
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) \
                and isinstance(n.body[0].value, ast.Constant) and isinstance(n.body[0].value.value, str):
            n.body = n.body[1:] or ([] if isinstance(n, ast.Module) else [ast.Pass()])
    return tree


def main():
    if os.path.isdir(DST):
        shutil.rmtree(DST)
    for d, dirs, files in os.walk(SRC):
        dirs[:] = [x for x in dirs if x not in ("__pycache__", "data")]
        for f in files:
            if f.endswith(".py") and f not in SKIP:
                p = os.path.join(d, f)
                out = os.path.join(DST, os.path.relpath(p, SRC))
                os.makedirs(os.path.dirname(out), exist_ok=True)
                with open(p, encoding="utf-8") as fh:
                    t = strip(ast.parse(fh.read()))
                with open(out, "w", encoding="utf-8") as fh:
                    fh.write(ast.unparse(t) + "\n")


main()
