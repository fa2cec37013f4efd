import sys,ast
src=open(sys.argv[1]).read(); lines=src.split('\n')
kill=set()
for n in ast.walk(ast.parse(src)):
    if isinstance(n,(ast.FunctionDef,ast.ClassDef,ast.Module)) and n.body and isinstance(n.body[0],ast.Expr) and isinstance(getattr(n.body[0],'value',None),ast.Constant) and isinstance(n.body[0].value.value,str):
        kill|=set(range(n.body[0].lineno,n.body[0].end_lineno+1))
for i,l in enumerate(lines,1):
    if i in kill or not l.strip() or l.strip().startswith('#'): continue
    print(i,l)
