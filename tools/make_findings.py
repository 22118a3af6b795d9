import subprocess
M = {
"bd30bf7":"S01","9955603":"F03","90829e7":"C02","89b4896":"R01","9d42f2d":"R01","bea0db1":"D02","0a34714":"C12","2fa89de":"C04","f4895fa":"C02","9fa578e":"R04","f6034a4":"M02","dace83e":"M02","11bbb81":"M01","c762710":"D04","6278817":"T01","794528f":"S01","f65bc70":"V01","48d9cb8":"V02","0f4cf53":"S07","0a11871":"S07","9719a70":"S07","146235d":"F03","2bf384d":"S04","51cdbce":"C03","d59e8f5":"C03","166fc7c":"C11","50fbfd5":"C06","108c789":"C14","826bf44":"C13","f18bfc6":"C07","012c5ad":"C10","40f25e0":"C12","9fb685a":"C06","e5ec9a9":"C07","0b79033":"C09","568ab34":"C05","bf5c192":"C02"}
M["9544f44"]="V03";M["c490d11"]="V01";M["9fb685a"]="C09";M["b82e75c"]="S05";M["d24c825"]="V04";M["1e13b1a"]="V04";M["0e276d2"]="F03";M["ef10054"]="F03";M["0b779ef"]="V04"
M["2e0aac6"]="C16";M["4b43d23"]="V05";M["af53e4d"]="V05";M["b833be9"]="V05";M["37400d3"]="V05";M["ee79cce"]="S05";M["0bcc322"]="S05";M["d76de1f"]="V02";M["a8b4977"]="R04";M["5c2f86c"]="P07"
X={"huge maximum":"M01","read_between ignored":"M02","sort_chunked made one":"M02","extended parquet metadata":"M03"}
out=subprocess.check_output(["git","-C","/repo","log","--reverse","--format=%h %s"],text=True)
L=["# repaired defects (suppress nothing) and recorded findings of the unchanged tree",
   "# fixed: property=<id> <commit> <what failed>",
   "# finding: property=<id> key=<rule|function|construct> <what fails>"]
for l in out.splitlines():
    h,s=l.split(" ",1)
    if s.startswith("fix:"):
        L.append(f"fixed: property={M.get(h) or next(v for k,v in X.items() if k in s)} {h} {s[5:]}")
open("/verif/known_findings.txt","w").write("\n".join(L)+"\n")
