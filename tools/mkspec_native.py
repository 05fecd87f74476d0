import sys,ast,json
sys.path.insert(0,'/verif/sa')
import cpplower
m,facts,pr=cpplower.lower_dir('/repo/src/repast4py')
body=[n for n in m.body if not (isinstance(n,ast.Assign) and 'anonymous' in ast.unparse(n))]
m.body=body
open('/verif/specs_cpp/native.py','w').write(ast.unparse(m)+'\n')
json.dump({k:v for k,v in facts.items() if 'anonymous' not in str(v)},open('/verif/specs_cpp/facts.json','w'),indent=1)
print(pr)
