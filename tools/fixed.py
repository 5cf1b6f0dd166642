import json,subprocess
P={"39c8adc":"C02","cc65338":"C02","62e6502":"C02","3bdd3dc":"C02","164cf02":"C04","c23df69":"C14","cabb75f":"C15","8fd1f21":"C04","a11f60a":"C06","00cb4da":"C03","c5e1f56":"C03","08e2c55":"C03","0d0da4f":"C03","fa86c0c":"C03","86b19f5":"C03","ce0a706":"C03","8d5a9da":"C09","5220ac0":"C08","f4222dd":"C07","d0729c1":"C13","6bb7925":"C13","36cc118":"C12","48e99be":"C25","e565219":"C25","581b524":"C20","fdf55dd":"C15","3026216":"C12","6e7b863":"C15","d02e979":"C12","b3ccb91":"C12","3c4cbfb":"C12","047512b":"C06","4b8afbf":"C10","d454a5f":"C19","39d2ded":"C14","7b50b0e":"C05","3d2496f":"C20","6d2a0fc":"C20","e7d8953":"C18","4ebe569":"C16","99b0121":"C20","e761316":"C26","845ec51":"C26","53d31c5":"C27","502d601":"C28","564f0a8":"C28","6056778":"C12","0bca1fc":"C12","34d1b9d":"C28","ca1e9ae":"C12"}
import sys
P.update(dict(a.split("=") for a in sys.argv[1:]))
l=subprocess.run("git -C /repo log --reverse --format='%h %s' 3c3d33e..HEAD",shell=True,capture_output=True,text=True).stdout.strip().split("\n")
f=[]
for x in l:
    h,m=x.split(" ",1)
    if not m.startswith("fix: "): continue
    f.append("fixed: property=%s %s %s"%(P[h],h,m[5:]))
p="/verif/known_findings.json"
k=json.load(open(p)); k["fixed"]=f; json.dump(k,open(p,"w"),indent=1)
