import ast,sys
for f in sys.argv[1:]:
    t=ast.parse(open(f).read())
    print("##",f)
    def sig(n):
        a=n.args
        return ", ".join(x.arg for x in a.posonlyargs+a.args+a.kwonlyargs)
    def walk(body,ind):
        for n in body:
            if isinstance(n,(ast.FunctionDef,)):
                d=(ast.get_docstring(n) or '').split('\n')[0]
                print(f"{' '*ind}{n.lineno} {n.name}({sig(n)}) — {d[:90]}")
            elif isinstance(n,ast.ClassDef):
                print(f"{' '*ind}{n.lineno} class {n.name}")
                walk(n.body,ind+2)
    walk(t.body,0)
