import ast,sys
class S(ast.NodeTransformer):
    def f(self,n):
        self.generic_visit(n)
        if n.body and isinstance(n.body[0],ast.Expr) and isinstance(getattr(n.body[0],'value',None),ast.Constant) and isinstance(n.body[0].value.value,str):
            n.body=n.body[1:] or [ast.Pass()]
        return n
    visit_FunctionDef=visit_ClassDef=visit_Module=f
f=sys.argv[1]; names=set(sys.argv[2:])
src=open(f).read(); t=S().visit(ast.parse(src))
if names:
    def want(b):
        for n in b:
            if isinstance(n,(ast.FunctionDef,ast.ClassDef)):
                if n.name in names: print(ast.unparse(n)); print()
                elif isinstance(n,ast.ClassDef): want(n.body)
    want(t.body)
else: 
    t.body=[n for n in t.body if not isinstance(n,(ast.Import,ast.ImportFrom))]
    print(ast.unparse(t))
