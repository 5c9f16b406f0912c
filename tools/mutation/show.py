import json,sys
from collections import Counter
for n in sys.argv[1:]:
    rs=[json.loads(l) for l in open(f'/tmp/mut/res/{n}.jsonl')]
    print(n,Counter(r['res'] for r in rs))
    for r in rs:
        if r['res']=='SURVIVED': print(' ',r['id'],r['desc'][:200].replace('\n',' | '))
