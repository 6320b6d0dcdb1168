"""Keccak-f[1600], STROBE-128 and Merlin transcripts, from their public specifications.
Regenerates the round constants independently of the repository."""
# keccak-f1600, STROBE-128, merlin
RC=[0x0000000000000001,0x0000000000008082,0x800000000000808a,0x8000000080008000,0x000000000000808b,0x0000000080000001,0x8000000080008081,0x8000000000008009,0x000000000000008a,0x0000000000000088,0x0000000080008009,0x000000008000000a,0x000000008000808b,0x800000000000008b,0x8000000000008089,0x8000000000008003,0x8000000000008002,0x8000000000000080,0x000000000000800a,0x800000008000000a,0x8000000080008081,0x8000000000008080,0x0000000080000001,0x8000000080008008]
ROT=[1,3,6,10,15,21,28,36,45,55,2,14,27,41,56,8,25,43,62,18,39,61,20,44]
PIL=[10,7,11,17,18,3,5,16,8,21,24,4,15,23,19,13,12,2,20,14,22,9,6,1]
M=(1<<64)-1
def keccak(st):
    a=[int.from_bytes(st[8*i:8*i+8],'little') for i in range(25)]
    rol=lambda x,n:((x<<n)|(x>>(64-n)))&M
    for rc in RC:
        c=[a[i]^a[i+5]^a[i+10]^a[i+15]^a[i+20] for i in range(5)]
        for i in range(5):
            t=c[(i+4)%5]^rol(c[(i+1)%5],1)
            for j in range(0,25,5): a[j+i]^=t
        t=a[1]
        for i in range(24):
            j=PIL[i]; b=a[j]; a[j]=rol(t,ROT[i]); t=b
        for j in range(0,25,5):
            b=a[j:j+5]
            for i in range(5): a[j+i]=b[i]^((~b[(i+1)%5])&M&b[(i+2)%5])
        a[0]^=rc
    for i in range(25): st[8*i:8*i+8]=a[i].to_bytes(8,'little')
R=166
class Strobe:
    def __init__(s,label):
        st=bytearray(200); st[0:6]=bytes([1,R+2,1,0,1,96]); st[6:18]=b"STROBEv1.0.2"; keccak(st)
        s.st=st;s.pos=0;s.pb=0;s.cur=0
        s.meta_ad(label,False)
    def f(s):
        s.st[s.pos]^=s.pb; s.st[s.pos+1]^=4; s.st[R+1]^=0x80; keccak(s.st); s.pos=0;s.pb=0
    def absorb(s,d):
        for b in d:
            s.st[s.pos]^=b; s.pos+=1
            if s.pos==R: s.f()
    def squeeze(s,n):
        o=bytearray()
        for _ in range(n):
            o.append(s.st[s.pos]); s.st[s.pos]=0; s.pos+=1
            if s.pos==R: s.f()
        return bytes(o)
    def begin(s,fl,more):
        if more: assert s.cur==fl; return
        assert fl&8==0 or True
        ob=s.pb; s.pb=s.pos+1; s.cur=fl
        s.absorb(bytes([ob,fl]))
        if fl&(4|32) and s.pos!=0: s.f()
    def meta_ad(s,d,more): s.begin(16|2,more); s.absorb(d)
    def ad(s,d,more): s.begin(2,more); s.absorb(d)
    def prf(s,n,more): s.begin(1|2|4,more); return s.squeeze(n)
class Transcript:
    def __init__(s,label):
        s.s=Strobe(b"Merlin v1.0"); s.append(b"dom-sep",label)
    def append(s,l,m):
        s.s.meta_ad(l,False); s.s.meta_ad(len(m).to_bytes(4,'little'),True); s.s.ad(m,False)
    def challenge(s,l,n):
        s.s.meta_ad(l,False); s.s.meta_ad(n.to_bytes(4,'little'),True); return s.s.prf(n,False)
