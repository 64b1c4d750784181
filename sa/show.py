"""Debug aid: print the dumped MIR of bodies whose id contains a substring."""
import json, sys, glob
def pl(p):
    s=f"_{p[0]}"
    for e in p[1:]:
        if e=="*": s=f"(*{s})"
        elif e[0]=="f": s+=f".{e[1]}" + (f":{e[2]}" if e[2] else "")
        elif e[0]=="d": s=f"({s} as {e[2]})"
        else: s+=str(e)
    return s
def op(o):
    if "cp" in o: return pl(o["cp"])
    if "mv" in o: return "move "+pl(o["mv"])
    if "fn" in o: return o["fn"].get("p")+(" =>"+o["fn"]["rid"] if "rid" in o["fn"] else "")
    return "const "+(o.get("defp") or "")+":"+str(o.get("v",o.get("fv",o.get("s",o.get("k","")))))+":"+o.get("c","")
def show(b):
    print("==",b["id"],b["span"],"argc",b["argc"], b.get("impltraitp",""))
    for v in b["vars"]: print("   var",v[0],pl(v[1]))
    for i,bb in enumerate(b["blocks"]):
        if bb["cl"]: continue
        print(f" bb{i}:")
        for s in bb["s"]:
            if s[0]=="=":
                r=s[2]
                if r[0]=="use": t=op(r[1])
                elif r[0]=="ref": t="&"+r[1]+" "+pl(r[2])
                elif r[0]=="bin": t=f"{r[1]}({op(r[2])},{op(r[3])})"
                elif r[0]=="un": t=f"{r[1]}({op(r[2])})"
                elif r[0]=="agg": t=f"{r[1].get('k')} {r[1].get('id','')} {r[1].get('vn','')} [{', '.join(op(x) for x in r[2])}]"
                elif r[0]=="disc": t="disc "+pl(r[1])
                elif r[0]=="cast": t=f"cast {op(r[2])} {r[3]}"
                else: t=str(r)
                print("   ",pl(s[1]),"=",t)
        t=bb["t"]
        if t[0]=="call": print("   ",pl(t[3]),"= CALL",op(t[1]),"(",", ".join(op(x) for x in t[2]),") -> bb",t[4],"  @",t[5])
        elif t[0]=="switch": print("    switch",op(t[1]),t[2],"else",t[3])
        else: print("   ",t)
if __name__=="__main__":
    for f in glob.glob(sys.argv[1]+"/*.json"):
        d=json.load(open(f))
        for b in d["bodies"]:
            if sys.argv[2] in b["id"] or sys.argv[2] in b["p"]: show(b)
