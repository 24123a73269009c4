import json,sys
P='/verif/properties.jsonl'; Q='/verif/props.json'
def add(pid,title,statement,over,qtext,why,files,mech,entries,thorough=(),reach=None,bounds=None,note=None,observe=("the token stream returned by Codegen::generate",),assumptions=None):
    ls=[json.loads(l) for l in open(P) if l.strip()]
    ls=[l for l in ls if l["id"]!=pid]
    ls.append({"id":pid,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":{"files":["pyo3_bindgen_engine/src/"+f if not f.startswith("pyo3") else f for f in files],"mechanism":[{"name":a,"where":b} for a,b in mech],"observe_at":list(observe)}})
    ls.sort(key=lambda l:l["id"])
    open(P,'w').write("".join(json.dumps(l)+"\n" for l in ls))
    q=json.load(open(Q))
    d={"entries":list(entries),"thorough":list(thorough),"reach":reach or {}}
    if bounds: d["bounds"]=bounds
    if note: d["note"]=note
    if assumptions: d["assumptions"]=assumptions
    q[pid]=d
    json.dump(q,open(Q,'w'),indent=1)
