import ast, glob, json, os
texts = []
for f in sorted(glob.glob("/repo/tests/*.py")):
    for n in ast.walk(ast.parse(open(f).read())):
        if isinstance(n, ast.Constant) and isinstance(n.value, str) and len(n.value) > 4:
            s = n.value
            if "END" in s.upper():
                texts.append(s)
for f in sorted(glob.glob("/repo/tests/**/*.map", recursive=True) + glob.glob("/repo/docs/**/*.map", recursive=True)):
    try: s = open(f, encoding="utf-8").read()
    except Exception: continue
    if len(s) < 6000: texts.append(s)
json.dump(texts, open("/tmp/texts.json", "w"))
print(len(texts))
