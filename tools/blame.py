"""print a file of /repo; lines of the original repository are marked ' ', lines of our fixes '+'"""
import subprocess, sys
base='0828750'
f=sys.argv[1]
out=subprocess.run(['git','-C','/repo','blame','-s',f],capture_output=True,text=True).stdout
base=subprocess.run(['git','-C','/repo','rev-list','--max-parents=0','HEAD'],capture_output=True,text=True).stdout.split()
orig=set(c[:7] for c in base)
for l in out.splitlines():
    h=l.split()[0].lstrip('^')
    i=l.index(')')
    print((' ' if any(h.startswith(o[:7]) for o in orig) or l.startswith('^') else '+'), l[i-4:i].strip(), l[i+1:])
