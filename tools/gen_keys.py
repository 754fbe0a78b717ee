#!/usr/bin/env python3
# Authoring-time tool: writes sim/src/keytable.rs (fixed key material used by the simulated zones).
# Not run by any check. Pairs (2i, 2i+1) in each EC list share a DNSKEY key tag contribution, so
# that the simulated attacker can own a key whose tag collides with an honest one.
import hashlib, subprocess, re
def inv(a, m): return pow(a, -1, m)
class C: pass
P256=C(); P256.p=2**256-2**224+2**192+2**96-1; P256.a=-3; P256.n=0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551
P256.g=(0x6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296,0x4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5); P256.l=32
P384=C(); P384.p=2**384-2**128-2**96+2**32-1; P384.a=-3; P384.n=0xffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52973
P384.g=(0xaa87ca22be8b05378eb1c71ef320ad746e1d3b628ba79b9859f741e082542a385502f25dbf55296c3a545e3872760ab7,0x3617de4a96262c6f5d9e98bf9292dc29f8f41dbd289a147ce9da3113b5f0b8c00a60b1ce1d7e819d7a431d7c90ea0e5f); P384.l=48
def add(c,A,B):
    if A is None: return B
    if B is None: return A
    if A[0]==B[0]:
        if (A[1]+B[1])%c.p==0: return None
        m=(3*A[0]*A[0]+c.a)*inv(2*A[1],c.p)%c.p
    else: m=(B[1]-A[1])*inv(B[0]-A[0],c.p)%c.p
    x=(m*m-A[0]-B[0])%c.p
    return (x,(m*(A[0]-x)-A[1])%c.p)
def mul(c,k,A):
    R=None
    while k:
        if k&1: R=add(c,R,A)
        A=add(c,A,A); k>>=1
    return R
def tagsum(pub, alg, flags=256):
    # RFC 4034 appendix B
    rd=flags.to_bytes(2,'big')+bytes([3,alg])+pub
    ac=0
    for i,b in enumerate(rd): ac += b if i&1 else b<<8
    ac += (ac>>16)&0xffff
    return ac&0xffff
out=["// Generated by tools/gen_keys.py. Test-only key material.",""]
for name,c,alg,h in (("P256",P256,13,256),("P384",P384,14,384)):
    seen={}; pairs=[]; keys=[]
    i=0
    while len(pairs)<8:
        i+=1
        d=int.from_bytes(hashlib.sha512(f"{name}-{i}".encode()).digest(),'big')%c.n
        q=mul(c,d,c.g); pub=q[0].to_bytes(c.l,'big')+q[1].to_bytes(c.l,'big')
        # require that tags collide for 256 and 257 flags
        t=(tagsum(pub,alg,256),tagsum(pub,alg,257))
        if t in seen: pairs.append((seen.pop(t),(d,pub)))
        else: seen[t]=(d,pub)
    out.append(f"pub const {name}: &[(&str, &str)] = &[")
    for a,b in pairs:
        for d,pub in (a,b): out.append(f'\t("{d.to_bytes(c.l,"big").hex()}", "{pub.hex()}"),')
    out.append("];")
# RSA
out.append("pub const RSA: &[(&str, &str, &str)] = &[")
import sys
for i in range(6):
    pem=subprocess.run(["openssl","genrsa","2048"],capture_output=True).stdout
    der=subprocess.run(["openssl","pkcs8","-topk8","-nocrypt","-outform","DER"],input=pem,capture_output=True).stdout
    txt=subprocess.run(["openssl","rsa","-noout","-modulus"],input=pem,capture_output=True).stdout.decode()
    n=txt.strip().split("=")[1].lower()
    out.append(f'\t("{der.hex()}", "{n}", "010001"),')
out.append("];")
open("/verif/sim/src/keytable.rs","w").write("\n".join(out)+"\n")
