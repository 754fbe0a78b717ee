"""Makes the keys of RSA_OTHER in sim/src/keytable.rs (which has them in another order); needs sympy."""
import random, sympy, re
random.seed(20261119)
out=[]
def prime(bits,e):
    while True:
        p=random.getrandbits(bits)|(3<<(bits-2))|1
        if (p-1)%e==0 or sympy.gcd(p-1,e)!=1: continue
        if sympy.isprime(p): return p
def enc(flags,alg,e,n,three):
    eb=e.to_bytes((e.bit_length()+7)//8,'big'); nb=n.to_bytes((n.bit_length()+7)//8,'big')
    d=flags.to_bytes(2,'big')+bytes([3,alg])+(bytes([0,0,len(eb)]) if three else bytes([len(eb)]))+eb+nb
    ac=sum((b<<8) if i%2==0 else b for i,b in enumerate(d)); return (ac+(ac>>16&0xffff))&0xffff
seen=set()
s=open('/verif/sim/src/keytable.rs').read()
for i,m in enumerate(re.finditer(r'\("([0-9a-f]+)", "([0-9a-f]+)", "(010001)"\)',s)):
    for fl in (256,257,0x301,0x181):
        for a in (8,10): seen.add((a,enc(fl,a,65537,int(m[2],16),i==4)))
spec=[(1024,65537),(1024,3),(1280,65537),(1024,65537),(2048,3),(1536,2**32+1),(4096,65537),(1032,17),(3072,65537),(1024,2**32+1)]
for j,(bits,e) in enumerate(spec):
    while True:
        pb=(bits+1)//2; p=prime(pb,e); q=prime(bits-pb,e)
        n=p*q
        if n.bit_length()!=bits: continue
        t={(a,enc(fl,a,e,n,j in(3,9))) for fl in (256,257,0x301,0x181) for a in (8,10)}
        if t&seen: continue
        seen|=t; break
    d=pow(e,-1,(p-1)*(q-1))
    out.append('\t("%x", "%x", "%x", "%x", "%x", "%x"),'%(p,q,d%(p-1),d%(q-1),pow(q,-1,p),e))
print('/// Of sizes and with exponents other libraries would not sign with: both primes, both exponents\n/// modulo them, the inverse of the second and the public exponent.\npub const RSA_OTHER: &[(&str, &str, &str, &str, &str, &str)] = &[')
print('\n'.join(out)); print('];')
