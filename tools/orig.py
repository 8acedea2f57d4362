import subprocess,glob,os,re
base="4601082"
for d in sorted(glob.glob('/verif/seeded/*')):
    cur=None;minus=0;mine=0;plus=0
    for l in open(d+'/patch.diff',newline='').read().split('\n'):
        if l.startswith('--- a/'):
            cur=l[6:].strip(); lines=set(x.rstrip('\r') for x in subprocess.run(['git','-C','/repo','show',base+':'+cur],capture_output=True,text=True).stdout.split('\n'))
        elif l.startswith('-') and not l.startswith('---'):
            minus+=1
            if l[1:].rstrip('\r') not in lines: mine+=1; print('   not in base:',l)
        elif l.startswith('+') and not l.startswith('+++'): plus+=1
    print(os.path.basename(d),'minus',minus,'mine',mine,'plus',plus)
