import subprocess
L=subprocess.run("git -C /repo log --reverse --format='%h|%s' b3d4316..HEAD",shell=True,capture_output=True,text=True).stdout.strip().split('\n')
pr={"report a damaged MPQ":"S03","read_mpq reports":"S02","replay without a usable header":"S03","variable length integer":"S03","target unit of a command":"S11","control group that does not exist":"S11","stealing units":"S11","storing the selection":"S11","selection hints hold":"S23","units selected by a user without":"S11","stays selected while":"S11","changes its type keeps":"S11","born into a selection":"S11","died leaves":"S11","hint of a unit init":"S23","registered by its change":"S23","limit of n":"S12","f32 can not":"S10","stays ended":"S19","deltas and unit positions":"S03","readers of all events":"S20","ill-formed balance":"S18","may end in .json":"S17","cache handle":"S04","not UTF-8":"S04","ranked by name":"S09","without an output directory":"S24","rows can not be written":"S05","optional values":"S10","time of a match":"S03","lobby slot changes of protocol":"S10","lobby slots of protocol":"S21","set-up data of a player":"S21","map bounds":"S25","damaged map archive":"S25","protocol description":"S26"}
o=["# finding: property=ID sig=\"SIGNATURE\" text   (a violation with this signature is reported as KNOWN-FINDING)",
   "# fixed: property=ID COMMIT what failed        (suppresses nothing)"]
for l in L:
    h,s=l.split('|',1); s=s.replace('fix: ','')
    k=[v for a,v in pr.items() if a in s]; assert len(k)==1,(s,k)
    o.append(f"fixed: property={k[0]} {h} {s}")
open('/verif/known_findings.txt','w').write('\n'.join(o)+'\n')
