import json,subprocess
log=subprocess.run(['git','-C','/repo','log','--reverse','--format=%h %s','62197ad..'],capture_output=True,text=True).stdout.splitlines()
P={'buffers are not freed':'C09','raft::range':'C24','kernels made by several':'C19','count how often':'C10','a refused link':'C10','looking at a range':'C04','the number of elements':'C03','a range of large':'C03','read each element':'C20','a clone of a print':'C20','generating no':'C20','matches are reported':'C21','copies of a chunk':'C21','read a file to':'C21','the last chunk':'C21','streams on existing':'C18','a range of an array':'C18','the objects of an array':'C18','process arrays of large':'C18','arrays with fewer':'C18','refuse in place':'C22','adding no in place':'C22','partition over one':'C23','a kernel thread knows':'C23','forwarding an element':'C08','split only recycles':'C14','kernels on existing':'C19','combining chains':'C15','a repeated chain':'C15','joined kernels':'C15','refuse a split':'C16','a map owns':'C19','an unconnected port':'C17','assigning a kernel wrapper':'C19','size the signal':'C02','deallocate() destroys':'C07','peek_range signals':'C02','send_range attaches':'C02','deallocate() also ends':'C06','popping an ext':'C07','blocked statistics':'C10','access flags':'C09','closing and querying':'C09','a consumer waiting':'C09','an empty stream':'C09','a resize moves':'C09','a resize keeps':'C10','a reservation larger':'C10'}
fixed=[]
for l in log:
    h,s=l.split(' ',1)
    s=s.replace('fix: ','')
    pr=[v for k,v in P.items() if s.startswith(k)]
    fixed.append('fixed: property=%s %s %s'%(pr[0] if pr else '?',h,s))
d=json.load(open('/verif/known_findings.json')) if __import__('os').path.exists('/verif/known_findings.json') else {'findings':[]}
d['fixed']=fixed
json.dump(d,open('/verif/known_findings.json','w'),indent=1); open('/verif/known_findings.json','a').write('\n')
print('\n'.join(fixed))
