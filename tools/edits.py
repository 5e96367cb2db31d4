"""Apply one edit of a planted-bug spec: (file, old, new[, count]) or (file, [anchor, ...], old, new):
the latter replaces the first occurrence of old after the anchors, found one after another."""
def edit(root,e):
    p=root+e[0]; s=open(p).read()
    if isinstance(e[1],(list,tuple)):
        i=0
        for a in e[1]:
            i=s.find(a,i)
            if i<0: raise Exception(f"anchor {a!r} not in {e[0]}")
        j=s.find(e[2],i)
        if j<0: raise Exception(f"{e[2]!r} not after anchor in {e[0]}")
        s=s[:j]+e[3]+s[j+len(e[2]):]
    else:
        n=s.count(e[1]); want=e[3] if len(e)>3 else 1
        if n!=want: raise Exception(f"{n} matches of {e[1]!r} in {e[0]}")
        s=s.replace(e[1],e[2])
    open(p,'w').write(s)
