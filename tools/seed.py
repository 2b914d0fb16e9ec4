#!/usr/bin/env python3
"""seed.py <id> <property> [--features hashed,mutauth] [--needs ..] [--breaks ..] [--recheck]
Makes /verif/seeded/<id> from the uncommitted diff in $WT (default /tmp/wt, a worktree of /repo) and /tmp/demo_main.rs
(the scenario, a `fn main`), then confirms it: builds, passes the stable tests, demo 0 without and non-zero
with the patch; finally runs the property's quick check on the patched tree."""
import argparse,json,os,shutil,subprocess,sys
ap=argparse.ArgumentParser()
ap.add_argument("id");ap.add_argument("prop");ap.add_argument("--features",default="hashed,mutauth")
ap.add_argument("--needs",default="");ap.add_argument("--breaks",default="")
ap.add_argument("--recheck",action="store_true");ap.add_argument("--only-check",action="store_true")
a=ap.parse_args()
W=os.environ.get("WT","/tmp/wt");T="/verif/tools/demo";S="/verif/harness/src";d=f"/verif/seeded/{a.id}"
def sh(c,**k): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
if not a.recheck and not a.only_check:
    diff=subprocess.check_output(f"git -C {W} diff",shell=True,text=True)
    assert diff.strip(),"no diff"
    os.makedirs(d+"/src",exist_ok=True)
    open(d+"/patch.diff","w").write(diff)
    json.dump({"property":a.prop,"needs":a.needs,"what_it_breaks":a.breaks},open(d+"/meta.json","w"),indent=1)
    s=open(T+"/demo.sh").read().replace("@FEATURES@",a.features)
    open(d+"/demo.sh","w").write(s);os.chmod(d+"/demo.sh",0o755)
    shutil.copy(T+"/Cargo.toml.in",d);shutil.copy("/verif/harness/Cargo.lock",d)
    for m in "audit engine gen ops sha2 tap toy wire world".split(): shutil.copy(f"{S}/{m}.rs",d+"/src/")
    open(d+"/src/main.rs","w").write(open(T+"/head.rs").read()+open("/tmp/demo_main.rs").read())
p=json.load(open(d+"/meta.json"))["property"]
assert not sh("git -C /repo status --porcelain").stdout.strip(),"/repo dirty"
ok=True
if not a.only_check:
    r=sh(f"bash {d}/demo.sh",cwd="/repo");print("demo clean",r.returncode,r.stdout[-600:].strip());ok&=r.returncode==0
    if not ok: sys.exit(1)
try:
    r=sh(f"git -C /repo apply {d}/patch.diff");print(r.stdout,end="");assert r.returncode==0
    if not a.only_check:
        r=sh("bash /opt/vp/build.sh",cwd="/repo");ok&=r.returncode==0;print("build",r.returncode, "" if r.returncode==0 else r.stdout[-1500:])
        r=sh("bash /opt/vp/test.sh /tmp/seed_out.json",cwd="/repo")
        o=json.load(open("/tmp/seed_out.json"));b=json.load(open("/opt/vp/BASELINE.json"))
        miss=sorted(set(b["stable"])-set(o["passed"]));print("tests missing",miss);ok&=not miss
        r=sh(f"bash {d}/demo.sh",cwd="/repo");print("demo patched",r.returncode,r.stdout[-600:].strip());ok&=r.returncode not in(0,3)
    m=[c for c in json.load(open("/verif/MANIFEST.json"))["checks"] if c["property"]==p]
    if m:
        r=sh(m[0]["quick_cmd"],cwd="/verif",env={**os.environ,"VERIF_SEED":"1","VERIF_TIER":"quick"})
        print("check",p,r.returncode,r.stdout[-500:].strip())
    else: print("no check for",p)
finally: sh("git -C /repo checkout -- .")
print("VALID" if ok else "NOT VALID")
