import subprocess,concurrent.futures as cf,sys
l=subprocess.run(['./ut','--gtest_list_tests']+sys.argv[1:],capture_output=True,text=True).stdout.splitlines()
t=[];s=''
for x in l:
    if not x.startswith(' '): s=x.split()[0]
    else: t.append(s+x.split()[0])
t=[x for x in t if 'Reopen' not in x]
def run(x):
    try: r=subprocess.run(['./ut','--gtest_filter='+x],capture_output=True,text=True,timeout=60)
    except subprocess.TimeoutExpired: return x,'timeout',''
    return x,r.returncode,r.stdout+r.stderr
ok=0
with cf.ThreadPoolExecutor(8) as e:
    for x,c,o in e.map(run,t):
        if c==0: ok+=1
        else: print(x,c,[l for l in o.splitlines() if 'Failure' in l or 'differs' in l or 'what()' in l][:3])
print(ok,len(t))
