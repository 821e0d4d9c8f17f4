"""Rewrites the "fixed" entries of known_findings.jsonl from the fix: commits of /repo."""
import json, subprocess
PROP = dict(x.split() for x in """
b9e8acc C19|4e85275 C03|9219f9d C10|8f581d0 C21|523d3d8 C21|d47af35 C03|1212baa C10|3193a31 C10|d6be7ad C05|3eeb784 C09|f0dc40c C19|0449fce C20|e0211fc C07|c3aa8f5 C07|67bf639 C18|b70c5a5 C01|8a930d4 C05|1d2b87a C06|e8a5930 C03|d2cef8c C08|ac4410b C19
9dcf459 C03|62fae19 C01|53440e6 C19|c684e4b C19|ed4132c C18|f7e764b C05|cc4a4ad C03|ce62c4d C18|f29a426 C05|b704e04 C06|75d597a C03
ae3c66c C06|2b609b7 C19|857a9ac C05|4db5f54 C03|71646f4 C01|e5e735f C01|c160d25 C18|d1f662d C05|6501405 C19|baed25c C06|0b536a4 C19
f692cee C05|20b6b2e C20|bca6924 C05|bc773b2 C19|b492f38 C18|71965d0 C06|53e9ab6 C18|4e75c26 C05|6dbc694 C03|e7406fa C19|c66e0f3 C12
dc7ad5a C19|d1c78b8 C05|fc0b0a4 C03|982db0f C20|b126ba7 C04|a3f468c C13|16b0e04 C01|756ab90 C01|2c12888 C18|32f6ed9 C20|bc1ee08 C03
fb6b9c4 C05|270b062 C21|04e432d C19|8200d8e C19|da43010 C19|dbe7d5b C19|45e2d8b C19|56e1f0e C19|cd219a5 C11|910d65d C19|204da95 C18|09ad186 C20|d823294 C21|180a5ac C19|ad910de C12|f0042eb C12|bcbeebe C18|dafc227 C19|26e2d70 C18|e52fc8b C19|ce3b8ec C19|a9d55a9 C19|85fe4c4 C21|7486f27 C21|e8153da C06|d952225 C05|cd93d3f C17|31a8361 C07|db7fe5d C10|1c423f4 C10|407e3d2 C10|413423a C10|7f945dc C10|ca03fcd C10|f0086fa C10|4fa75a0 C10|38fea96 C10|929c4ea C10|70d52e3 C10|38f5c5e C10|91574fa C18""".replace("\n","|").strip("|").split("|"))
known=[l for l in open('/verif/known_findings.jsonl') if json.loads(l)["status"]=="known"]
log=subprocess.run(["git","-C","/repo","log","--reverse","--format=%h %s","adfdcbd.."],capture_output=True,text=True).stdout.splitlines()
with open('/verif/known_findings.jsonl','w') as f:
    f.writelines(known)
    for l in log:
        h,s=l.split(" ",1)
        if not s.startswith("fix:"): continue
        p=PROP.get(h,"?")
        if p=="?": print("no property for",l)
        what=s[5:]
        f.write(json.dumps({"status":"fixed","property":p,"commit":h,"what":what,"note":f"fixed: property={p} {h} {what}"})+"\n")
