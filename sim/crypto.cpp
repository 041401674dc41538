// C07 (random number generator), C10 (incremental hashing), C11 (seed phrases), C14 (progress callback).
#include "world.h"
#include <string.h>
#include <algorithm>
#include <stdexcept>
namespace sim {
using namespace ref;
Bytes keyNum(){ // valid key, biased to the ends of the range
  switch(choose(8)){ case 0: return be(u256((u64)1+choose(5))); case 1: return be(negN(u256((u64)1+choose(5)))); case 2: { Bytes k(32,0); k[31-choose(32)]=1+choose(255); if(ref::cmp(u256(k.data()),N_)>=0) k[0]=1; return k; } default: return key32(); } }
static Bytes hash32(){ switch(choose(10)){ case 0: { Bytes h(32,0); h[31]=1+choose(3); return h; } case 1: { Bytes h=be(negN(u256((u64)1+choose(3)))); return h; } case 2: { Bytes h(32,0); h[choose(32)]=1+choose(255); if(ref::cmp(u256(h.data()),N_)>=0) h[0]=1; return h; } default: { Bytes h=sha256(blob(8)); return h; } } }
static void ptCheck(const ECPoint&p,const Point&w,const char*what){ Bytes s=ref::sec(w,false); CHECK(!w.inf && B(p.point,64)==Bytes(s.begin()+1,s.end()),"wrong-result","%s: got %s expected %s",what,hx(p.point,64).c_str(),hx(s).c_str()); }
// ---------------------------------------------------------------- C07
// a device in service for long: the same request, hundreds of times between others, always has the same answer
static void longService(){ count("kind.long_service"); nontrivial(); Bytes k=keyNum(),h=hash32(),cc=blob(32),q=pubOf(keyNum()); u32 ix=word32(); int n=oneOf({130,258,300}); int op=choose(4); rngPlan(false); L("op %d, %d times",op,n); Bytes want; switch(op){ case 0: { Ecdsa e=sign(k,h); want=cat(e.r,e.s); break; } case 1: { HD hd; hd.key=k; hd.cc=cc; hd.depth=1; hd.pfp=Bytes(4,0); hd.child=0; HD w=ckd(hd,ix); want=cat(w.key,w.cc); break; } default: break; }
  for(int i=0;i<n;i++){ budget(60000000ull); Bytes got(64); bool ok=true; { Dev d; PrivateKey pk(k.data()); switch(op){ case 0: { Signature s=pk.sign(h.data()); s.bin(got.data(),64); break; } case 1: { HDPrivateKey r(k.data(),cc.data(),1); HDPrivateKey c=r.child(ix); c.getSecret(got.data()); memcpy(got.data()+32,c.chainCode,32); break; } case 2: { PublicKey p(q.data()); pk.ecdh(p,got.data()); ok=p.isValid(); break; } default: { SchnorrSignature s=pk.schnorr_sign(h.data()); s.serialize(got.data(),64,(size_t)0,RAW); ok=pk.publicKey().schnorr_verify(s,h.data()); } } } if(want.empty()) want=got; CHECK(got==want&&ok,"wrong-result","the same request answered differently the %dth time: %s",i+1,diff(hx(want),hx(got)).c_str()); } }
// a chain of scalar and point operations, through zero and infinity as well, step by step against the reference
static void algebra(const Bytes&k){ U256 su=u256(k.data()); Bytes gk=keyNum(); Point Q=mulG(u256(gk.data())), R=mulG(su); ECScalar*s; ECPoint*p; Bytes qb=ref::sec(Q,choose(2)),rb=ref::sec(R,false); { Dev d; s=new ECScalar(k.data(),32); p=new ECPoint(rb.data()); } int n=2+choose(7); bool zeroSeen=false;
  for(int i=0;i<n;i++){ Bytes y=keyNum(); if(chance(1,4)) y=be(su); U256 yu=u256(y.data()); u32 w=chance(1,3)?0:word32(); int op=choose(16); if(op==4&&isZero(yu)){ Dev d; ECScalar t(y.data(),32); ECScalar q=*s/t; (void)q; op=3; } // no value to speak of, but it must come back budget(120000000ull);
    { Dev d; ECScalar t(y.data(),32); ECPoint q(qb.data()); const ECScalar c=*s; const ECPoint e=*p; switch(op){ case 0: *s=c+t; break; case 1: *s=c-t; break; case 2: *s=-c; break; case 3: *s=c*t; break; case 4: *s=c/t; break; case 5: *s=c+w; break; case 6: *s=c-w; break; case 7: *s=c-c; break; case 8: *p=e+q; break; case 9: *p=e-q; break; case 10: *p=-e; break; case 11: *p=c*e; break; case 12: *p=c*GeneratorPoint; break; case 13: *p=c*q; break; case 14: *p=e-e; break; default: *p=e+e; } }
    U256 wu=u256((u64)w); switch(op){ case 0: su=addN(su,yu); break; case 1: su=addN(su,negN(yu)); break; case 2: su=negN(su); break; case 3: su=mulN(su,yu); break; case 4: su=mulN(su,invN(yu)); break; case 5: su=addN(su,wu); break; case 6: su=addN(su,negN(wu)); break; case 7: su=u256((u64)0); break; case 8: R=add(R,Q); break; case 9: R=add(R,neg(Q)); break; case 10: R=neg(R); break; case 11: R=mul(R,su); break; case 12: R=mulG(su); break; case 13: R=mul(Q,su); break; case 14: R=add(R,neg(R)); break; default: R=add(R,R); }
    uint8_t got[32]; s->getSecret(got); L("step %d: %s%s",op,hx(be(su)).c_str(),R.inf?", at infinity":""); if(isZero(su)||R.inf) zeroSeen=true; CHECK(B(got,32)==be(su),"wrong-result","scalar %s, expected %s",hx(got,32).c_str(),hx(be(su)).c_str()); Bytes pw(64,0); if(!R.inf){ Bytes z=ref::sec(R,false); pw.assign(z.begin()+1,z.end()); } CHECK(B(p->point,64)==pw,"wrong-result","point %s, expected %s",hx(p->point,64).c_str(),hx(pw).c_str()); bool inf; { Dev d; inf= *p==InfinityPoint; } CHECK(inf==R.inf,"wrong-result","infinity not told apart"); }
  if(zeroSeen) count("probe.zero_or_infinity"); { Dev d; delete s; delete p; } }
static void c07(){ if(chance(1,400)){ longService(); return; } int n=1+choose(3); bool faulty=!chance(1,8);
  for(int i=0;i<n;i++){ Bytes k=keyNum(); U256 ku=u256(k.data()); int op=choose(15); if(op==14) op=3+choose(2); static const char*names[]={"pubkey","ecdsa_sign","ecdsa_verify","child","public_child","ecdh","schnorr_sign","schnorr_verify","point_mul","seed","set_secret","point_sum","scalar_sum","algebra"}; count((std::string("kind.op_")+names[op]).c_str()); L("op %s key %s",names[op],hx(k).c_str());
    Point P=mulG(ku); Bytes h=hash32(); rngPlan(faulty); budget(60000000ull); // ample: a scalar multiplication takes well under a million steps
    switch(op){
    case 0: { bool c=!chance(1,2); PublicKey p; { Dev d; PrivateKey pk(k.data(),c); p=pk.publicKey(); } ptCheck(p,P,"public key"); std::string st,xs; bool ev; { Dev d; std::string a=p.sec(),b=p.x(); ev=p.isEven(); Host x; st=a; xs=b; } CHECK(st==hx(ref::sec(P,c))&&xs==hx(be(P.x))&&ev==!odd(P),"wrong-result","text forms of the public key: %s %s even %d",st.c_str(),xs.c_str(),ev); CHECK(p.compressed==c,"wrong-result","compression flag"); Bytes s; { Host x; uint8_t b[65]; size_t l=p.sec(b,65); s=B(b,l); } CHECK(s==ref::sec(P,c),"wrong-result","sec encoding"); break; }
    case 1: { uint8_t b[65]; uint8_t idx; bool ok; if(chance(1,8)){ h=Bytes(32,0xff); h[31-choose(16)]=choose(256); } bool big=ref::cmp(u256(h.data()),N_)>=0; bool ext=chance(1,3); Bytes cc=blob(32); { Dev d; Signature s; if(ext){ HDPrivateKey hk(k.data(),cc.data()); s=hk.sign(h.data()); HDPublicKey hp=hk.xpub(); ok=hp.verify(s,h.data()); } else { PrivateKey pk(k.data()); s=pk.sign(h.data()); ok=pk.publicKey().verify(s,h.data()); } s.bin(b,65); idx=s.index; } if(ext) count("kind.extended_key"); if(big) count("kind.big_digest"); Ecdsa e=sign(k,h); Bytes got=B(b,64); CHECK(got==cat(e.r,e.s),"wrong-result","signature %s, expected %s",hx(got).c_str(),hx(cat(e.r,e.s)).c_str()); CHECK(idx==e.recid&&b[64]==e.recid,"wrong-result","recovery index %d, expected %d",idx,e.recid); CHECK(ok,"wrong-result","own signature does not verify"); break; }
    case 2: { Ecdsa e=sign(k,h); Bytes r=e.r,s=e.s,hh=h; Point Q=P; Bytes qk=k; switch(choose(8)){ case 0: break; case 1: r[choose(32)]^=1<<choose(8); break; case 2: s[choose(32)]^=1<<choose(8); break; case 3: hh[choose(32)]^=1<<choose(8); break; case 4: qk=keyNum(); Q=mulG(u256(qk.data())); break; case 5: s=be(negN(u256(s.data()))); break; case 6: if(choose(2)) r=Bytes(32,0); else s=Bytes(32,0); break; default: if(choose(2)) s=be(N_); else r=be(N_); }
      if(isZero(u256(hh.data()))) hh[31]=1; bool comp=!chance(1,3); Bytes sb=ref::sec(Q,comp); bool got; Bytes dr=der(r,s); bool canDer=!isZero(u256(r.data()))&&!isZero(u256(s.data())); std::string dh=hx(dr),ph=hx(sb); Bytes full=ref::sec(Q,false); int sf= canDer? choose(6):choose(2), pf=choose(6); Bytes cc=blob(32); if(pf==5) count("kind.extended_key"); { Dev d; PublicKey pub; switch(pf){ case 0: pub=PublicKey(sb.data()); break; case 1: pub=PublicKey(ph.c_str()); break; case 2: pub=PublicKey(full.data()+1,comp); break; case 3: { ECPoint q(sb.data()); pub=PublicKey(q); break; } case 4: pub.fromSec(sb.data(),sb.size()); break; default: break; } HDPublicKey hp(full.data()+1,cc.data()); const PublicKey&use= pf==5? (const PublicKey&)hp : pub; Signature sg; switch(sf){ case 0: sg=Signature(r.data(),s.data()); break; case 1: { uint8_t b[65]; memcpy(b,r.data(),32); memcpy(b+32,s.data(),32); b[64]=1; sg.fromBin(b,65); break; } case 2: sg=Signature(dr.data(),dr.size()); break; case 3: sg=Signature(dr.data()); break; case 4: sg=Signature(dh.c_str()); break; default: sg.fromDer(dr.data(),dr.size()); } got=use.verify(sg,hh.data()); } bool want=verify(Q,hh,r,s); count(want?"probe.verify_true":"probe.verify_false"); CHECK(got==want,"wrong-verdict","verify says %d, independent verification says %d (r %s s %s)",got,want,hx(r).c_str(),hx(s).c_str()); break; }
    case 3: { HD hd; hd.key=k; hd.cc=blob(32); hd.depth=chance(1,3)?choose(255):choose(4); hd.pfp=blob(4); hd.child=word32(); u32 idx=choose(2)? word32(): 0x80000000u+oneOf({0,1,44,49,84,48,45,2}); HD w=ckd(hd,idx); HDPrivateKey c; { Dev d; HDPrivateKey r(hd.key.data(),hd.cc.data(),hd.depth,hd.pfp.data(),hd.child); if(chance(1,3)&&idx>=0x80000000u) c=r.hardenedChild(idx-0x80000000u); else c=r.child(idx); } uint8_t sk[32]; c.getSecret(sk); CHECK(B(sk,32)==w.key&&B(c.chainCode,32)==w.cc,"wrong-result","child %u differs",idx); CHECK(c.depth==w.depth&&B(c.parentFingerprint,4)==w.pfp&&c.childNumber==w.child,"wrong-result","child %u: depth, fingerprint or number differ",idx); ptCheck(c.publicKey(),mulG(u256(w.key.data())),"child public key"); break; }
    case 4: { HD hd; hd.key=k; hd.cc=blob(32); hd.depth=chance(1,3)?choose(255):choose(4); hd.pfp=blob(4); hd.child=word32(); u32 idx=word32()&0x7fffffff; HD w=ckd(hd,idx); HDPublicKey c; bool own=choose(2); Bytes full=ref::sec(P,false); uint8_t fp[4],fq[4]; std::string ft,fu; { Dev d; HDPrivateKey r(hd.key.data(),hd.cc.data(),hd.depth,hd.pfp.data(),hd.child); HDPublicKey q= own? HDPublicKey(full.data()+1,hd.cc.data(),hd.depth,hd.pfp.data(),hd.child) : r.xpub(); q.fingerprint(fp); r.fingerprint(fq); std::string a=q.fingerprint(),b=r.fingerprint(); c=q.child(idx); Host x; ft=a; fu=b; } Bytes fw=fingerprint(hd); CHECK(B(fp,4)==fw&&B(fq,4)==fw&&ft==hx(fw)&&fu==ft,"wrong-result","fingerprint %s %s %s %s, expected %s",hx(fp,4).c_str(),hx(fq,4).c_str(),ft.c_str(),fu.c_str(),hx(fw).c_str()); CHECK(B(c.chainCode,32)==w.cc&&c.depth==w.depth&&B(c.parentFingerprint,4)==w.pfp&&c.childNumber==w.child,"wrong-result","public child %u differs",idx); ptCheck(c,mulG(u256(w.key.data())),"public child"); break; }
    case 5: { Bytes o=keyNum(); Point Q=mulG(u256(o.data())); bool hs=!chance(1,3); uint8_t ss[32]; Bytes sb=ref::sec(Q,!chance(1,2)); Bytes fq=ref::sec(Q,false),cc=blob(32); int ext=choose(4); if(ext>1) count("kind.extended_key"); { Dev d; if(ext==2){ HDPrivateKey pk(k.data(),cc.data()); PublicKey pub(sb.data()); pk.ecdh(pub,ss,hs); } else if(ext==3){ HDPrivateKey pk(k.data(),cc.data()); HDPublicKey pub(fq.data()+1,cc.data()); pk.ecdh(pub,ss,hs); } else { PrivateKey pk(k.data()); PublicKey pub(sb.data()); pk.ecdh(pub,ss,hs); } } Point X=mul(Q,ku); Bytes x=ref::sec(X,false); x.erase(x.begin()); Bytes want= hs? sha256(x) : Bytes(x.begin(),x.begin()+32); CHECK(B(ss,32)==want,"wrong-result","shared secret differs"); break; }
    case 6: { Bytes a(64),b(64); bool ok; bool ext=chance(1,3); Bytes cc=blob(32); if(ext) count("kind.extended_key"); { Dev d; SchnorrSignature s; if(ext){ HDPrivateKey pk(k.data(),cc.data()); s=pk.schnorr_sign(h.data()); ok=pk.xpub().schnorr_verify(s,h.data()); } else { PrivateKey pk(k.data()); s=pk.schnorr_sign(h.data()); ok=pk.publicKey().schnorr_verify(s,h.data()); } s.serialize(a.data(),64,(size_t)0,RAW); } Bytes x=be(P.x); CHECK(schnorrVerify(x,h,a),"wrong-result","Schnorr signature is not valid"); CHECK(ok,"wrong-verdict","own Schnorr signature does not verify"); g_rng=SimRng(); g_rng.st=99; { Dev d; PrivateKey pk(k.data()); SchnorrSignature s=pk.schnorr_sign(h.data()); s.serialize(b.data(),64,(size_t)0,RAW); } CHECK(a==b,"rng-dependent","Schnorr signature depends on the random number generator"); break; }
    case 7: { Bytes sig(64); g_rng=SimRng(); { Dev d; PrivateKey pk(k.data()); SchnorrSignature s=pk.schnorr_sign(h.data()); s.serialize(sig.data(),64,(size_t)0,RAW); } Bytes hh=h; Point Q=P; switch(choose(9)){ case 0: break; case 1: sig[choose(64)]^=1<<choose(8); break; case 2: hh[choose(32)]^=1<<choose(8); break; case 3: { Bytes o=keyNum(); Q=mulG(u256(o.data())); break; } case 4: { Bytes s=be(negN(u256(sig.data()+32))); std::copy(s.begin(),s.end(),sig.begin()+32); break; } case 5: { Bytes s=be(P_); if(choose(2)) s=be(N_); std::copy(s.begin(),s.end(),sig.begin()+(choose(2)?32:0)); break; } case 6: { Bytes r=blob(32); std::copy(r.begin(),r.end(),sig.begin()); break; } case 7: { for(int j=0;j<32;j++) sig[(choose(2)?32:0)+j]=0; break; } default: break; }
      rngPlan(faulty); Bytes sb=ref::sec(Q,!chance(1,3)); bool got; bool ext=chance(1,4); Bytes cc=blob(32),full=ref::sec(Q,false); if(ext) count("kind.extended_key"); { Dev d; PublicKey pub(sb.data()); HDPublicKey hp(full.data()+1,cc.data()); const PublicKey&use= ext? (const PublicKey&)hp : pub; SchnorrSignature s; int sf=choose(4); switch(sf){ case 0: s=SchnorrSignature(sig.data()); break; case 1: s=SchnorrSignature(sig.data(),sig.data()+32); break; case 2: { char t[129]; toHex(sig.data(),64,t,129); t[128]=0; s=SchnorrSignature(t); break; } default: s.parse(sig.data(),64); } got=use.schnorr_verify(s,hh.data()); } bool want=schnorrVerify(be(Q.x),hh,sig); count(want?"probe.schnorr_true":"probe.schnorr_false"); CHECK(got==want,"wrong-verdict","Schnorr verify says %d, independent verification says %d (%s)",got,want,hx(sig).c_str()); break; }
    case 8: { Bytes o=keyNum(); Point Q=mulG(u256(o.data())); Bytes sb=ref::sec(Q,false); ECPoint r; int ext=choose(3); Bytes cc=blob(32); { Dev d; ECPoint q(sb.data()); ECScalar s(k.data(),32); HDPublicKey hq(sb.data()+1,cc.data()); HDPrivateKey hs(k.data(),cc.data()); if(ext==1) r=s*hq; else if(ext==2) r=hs*q; else r=s*q; } ptCheck(r,mul(Q,ku),"scalar times point"); break; }
    case 10: { Bytes o=keyNum(); bool c=choose(2); PublicKey p; uint8_t b[65],sk[32]; { Dev d; PrivateKey pk(o.data(),c); pk.setSecret(k.data()); p=pk.publicKey(); Signature g=pk.sign(h.data()); g.bin(b,65); pk.getSecret(sk); } ptCheck(p,P,"public key of a key set again"); Ecdsa e=sign(k,h); CHECK(B(sk,32)==k&&B(b,64)==cat(e.r,e.s),"wrong-result","a key set again signs differently"); break; }
    case 11: { Bytes o=keyNum(); U256 ou=u256(o.data()); if(isZero(addN(ku,ou))||ku.v[0]==ou.v[0]){ L("skip"); break; } Point Q=mulG(ou); Bytes a=ref::sec(P,false),b=ref::sec(Q,choose(2)); ECPoint r,m,n; bool lt,gt,eq; bool comp=choose(2); int ext=choose(3); Bytes cc=blob(32),fb=ref::sec(Q,false); { Dev d; ECPoint x(a.data()+1,comp),y(b.data()); HDPublicKey hx_(a.data()+1,cc.data()),hy(fb.data()+1,cc.data()); if(ext==1){ r=hx_+y; m=x-hy; n=-hx_; } else if(ext==2){ r=hx_+hy; m=hx_-hy; n=-hx_; } else { r=x+y; m=x-y; n=-x; } x.compressed=y.compressed=true; lt=x<y; gt=x>y; eq=x==y; } ptCheck(r,ref::add(P,Q),"sum of points"); ptCheck(m,ref::add(P,ref::neg(Q)),"difference of points"); ptCheck(n,ref::neg(P),"negated point"); bool w=ref::sec(P,true)<ref::sec(Q,true); CHECK(lt==w&&gt==!w&&!eq,"wrong-result","order of points"); break; }
    case 12: { Bytes o=keyNum(); U256 ou=u256(o.data()); u32 i=word32(); Bytes v[7]; bool lt; int ext=choose(3); Bytes cc=blob(32); { Dev d; HDPrivateKey ex(k.data(),cc.data()); PrivateKey py(o.data()); ECScalar x0(k.data(),32),y0(o.data(),32); ECScalar&x= ext==1? (ECScalar&)ex : x0; ECScalar&y= ext? (ECScalar&)py : y0; ECScalar r[7]={x+y,x-y,-x,x*y,x/y,x+i,x-i}; const ECScalar cx=x; r[5]= choose(2)? cx+i : r[5]; r[6]= choose(2)? cx-i : r[6]; lt=x<y; Host hh; for(int j=0;j<7;j++){ v[j].resize(32); r[j].getSecret(v[j].data()); } } U256 iu=u256((u64)i); U256 w[7]={addN(ku,ou),addN(ku,negN(ou)),negN(ku),mulN(ku,ou),mulN(ku,invN(ou)),addN(ku,iu),addN(ku,negN(iu))}; static const char*nm[]={"sum","difference","negation","product","quotient","sum with a number","difference with a number"}; for(int j=0;j<7;j++) CHECK(v[j]==be(w[j]),"wrong-result","%s of scalars: %s, expected %s",nm[j],hx(v[j]).c_str(),hx(be(w[j])).c_str()); CHECK(lt==(ref::cmp(ku,ou)<0),"wrong-result","order of scalars"); break; }
    case 13: algebra(k); break;
    default: { Bytes seed=blob(oneOf({64,16,32,48})); HD w=master(seed); HDPrivateKey r; { Dev d; r.fromSeed(seed.data(),seed.size()); } uint8_t sk[32]; r.getSecret(sk); CHECK(B(sk,32)==w.key&&B(r.chainCode,32)==w.cc,"wrong-result","master key differs"); ptCheck(r.publicKey(),mulG(u256(w.key.data())),"master public key"); } } 
    L("ok, %llu words drawn",(unsigned long long)g_rng.n); }
}
static Reg r07("C07",c07);

// ---------------------------------------------------------------- C10
static size_t msgLen(){ if(chance(1,60)) return oneOf({8190,8191,8192,8193,16384,32768,65535,65536,65537,70001,131072}); switch(choose(6)){ case 0: return choose(70); case 1: return oneOf({0,1,55,56,57,63,64,65,111,112,113,119,120,127,128,129,183,184,191,192,247,248,255,256,257,511,512,513}); case 2: return 64*choose(20)+choose(3); case 3: return 128*choose(10)+oneOf({0,1,111,112,127}); case 4: return choose(600); default: return choose(5000); } }
struct HCtx{ int alg; Bytes key,msg; size_t off=0; bool active=false; SHA256 s256; SHA512 s512; RMD160 rmd; Hash160 h160; DoubleSha dsha_; TaggedHash*tag=nullptr; std::string tagStr; int fm=0; int done=0; };
static const char*algName[]={"sha256","double_sha256","sha512","ripemd160","hash160","tagged","hmac256","hmac512"};
static void hBegin(HCtx&c){ c.msg=blob(msgLen()); c.off=0; c.active=true; c.fm=choose(6); if(c.alg==6||c.alg==7) c.key=blob(choose(3)? oneOf({0,1,16,31,32,33,63,64,65,100,127,128,129,130,200,300}) : choose(300)); Dev d; 
  switch(c.alg){ case 0: c.s256.begin(); break; case 1: c.dsha_.begin(); break; case 2: c.s512.begin(); break; case 3: c.rmd.begin(); break; case 4: c.h160.begin(); break; case 5: { Host h; size_t n=choose(3)? choose(40):choose(200); Bytes t=blob(n); c.tagStr.clear(); for(auto x:t) c.tagStr+=(char)('!'+x%90); { Dev d2; delete c.tag; c.tag=new TaggedHash(c.tagStr.c_str()); } break; } case 6: c.s256.beginHMAC(c.key.data(),c.key.size()); break; default: c.s512.beginHMAC(c.key.data(),c.key.size()); } }
static HashAlgorithm*algo(HCtx&c){ switch(c.alg){ case 0: case 6: return &c.s256; case 1: return &c.dsha_; case 2: case 7: return &c.s512; case 3: return &c.rmd; case 4: return &c.h160; default: return c.tag; } }
static Bytes want(const HCtx&c){ switch(c.alg){ case 0: return sha256(c.msg); case 1: return dsha(c.msg); case 2: return sha512(c.msg); case 3: return ripemd160(c.msg); case 4: return hash160(c.msg); case 5: return tagged(c.tagStr,c.msg); case 6: return hmac256(c.key,c.msg); default: return hmac512(c.key,c.msg); } }
static void hEnd(HCtx&c){ uint8_t out[64+8]; memset(out,0xEE,sizeof out); size_t n; { Dev d; switch(c.alg){ case 6: n=c.s256.endHMAC(out); break; case 7: n=c.s512.endHMAC(out); break; default: n=algo(c)->end(out); } } Bytes w=want(c); L("end %s: %s",algName[c.alg],hx(out,w.size()).c_str()); CHECK(n==w.size(),"wrong-size","%s reports %zu bytes",algName[c.alg],n); CHECK(B(out,w.size())==w,"wrong-digest","%s of %zu bytes: %s, expected %s",algName[c.alg],c.msg.size(),hx(out,w.size()).c_str(),hx(w).c_str()); for(size_t i=w.size();i<sizeof out;i++) CHECK(out[i]==0xEE,"overrun","%s wrote past its digest",algName[c.alg]); c.active=false; c.done++; }
// more than 2^32 bits through one context
static void hugeMessage(){ HCtx c; c.alg=choose(8); hBegin(c); size_t total=((size_t)1<<29)-200+choose(400); Bytes piece=blob(1<<20); count((std::string("kind.huge_")+algName[c.alg]).c_str()); nontrivial(); L("%s of %zu bytes",algName[c.alg],total); budget(60000000000ull); c.msg.clear(); c.msg.reserve(total); size_t first=choose(200); { Dev d; algo(c)->write(piece.data(),first); } c.msg.insert(c.msg.end(),piece.begin(),piece.begin()+first); while(c.msg.size()<total){ size_t n=std::min(piece.size(),total-c.msg.size()); { Dev d; algo(c)->write(piece.data(),n); } c.msg.insert(c.msg.end(),piece.begin(),piece.begin()+n); } c.off=total; hEnd(c); { Dev d; delete c.tag; } }
static void c10(){ if(chance(1,100000)){ hugeMessage(); return; } if(chance(1,8)){ // one-line functions on exact-size buffers
    int n=1+choose(4); for(int i=0;i<n;i++){ Bytes m=blob(msgLen()), k=blob(choose(200)); uint8_t*p=(uint8_t*)malloc(m.size()?m.size():1); memcpy(p,m.data(),m.size()); uint8_t o[64]; int f=choose(18); std::string str((char*)m.data(),m.size()); std::string tg="tag"+std::to_string(choose(1000)); int r; Bytes w; { Dev d; switch(f){ case 0: r=::sha256(p,m.size(),o); break; case 1: r=::doubleSha(p,m.size(),o); break; case 2: r=::sha512(p,m.size(),o); break; case 3: r=::rmd160(p,m.size(),o); break; case 4: r=::hash160(p,m.size(),o); break; case 5: r=::tagged_hash(tg.c_str(),p,m.size(),o); break; case 6: r=::sha256Hmac(k.data(),k.size(),p,m.size(),o); break; case 7: r=::sha512Hmac(k.data(),k.size(),p,m.size(),o); break; case 8: r=::sha256(str,o); break; case 9: r=::sha256((const char*)p,m.size(),o); break; case 10: r=::doubleSha((const char*)p,m.size(),o); break; case 11: r=::doubleSha(str,o); break; case 12: r=::sha512((const char*)p,m.size(),o); break; case 13: r=::sha512(str,o); break; case 14: r= choose(2)? ::rmd160((const char*)p,m.size(),o) : ::rmd160(str,o); break; case 15: r= choose(2)? ::hash160((const char*)p,m.size(),o) : ::hash160(str,o); break; case 16: r=::tagged_hash(tg.c_str(),(const char*)p,m.size(),o); break; default: r=::tagged_hash(tg,str,o); } }
      switch(f){ case 0: case 8: case 9: w=sha256(m); break; case 1: case 10: case 11: w=dsha(m); break; case 2: case 12: case 13: w=sha512(m); break; case 3: case 14: w=ripemd160(m); break; case 4: case 15: w=hash160(m); break; case 5: case 16: case 17: w=tagged(tg,m); break; case 6: w=hmac256(k,m); break; default: w=hmac512(k,m); } (void)r; CHECK(B(o,w.size())==w,"wrong-digest","one-line function %d of %zu bytes",f,m.size()); free(p); L("one-line %d of %zu: %s",f,m.size(),hx(w).c_str()); }
    checkNoLeak("after hashing"); return; }
  int n=1+choose(5); std::vector<HCtx> cs(n); for(auto&c:cs){ c.alg=choose(8); count((std::string("kind.")+algName[c.alg]).c_str()); } if(n>1) nontrivial(); int limit=400, reuse=choose(3); budget(400000000ull); size_t live=0; for(auto&c:cs){ hBegin(c); live++; L("context %ld: %s, %zu bytes, mode %d",(long)(&c-cs.data()),algName[c.alg],c.msg.size(),c.fm); }
  while(live){ std::vector<int> run; for(int i=0;i<n;i++) if(cs[i].active) run.push_back(i); int ci=run[choose(run.size())]; HCtx&c=cs[ci]; size_t rem=c.msg.size()-c.off; 
    if(rem==0&&!chance(1,4)){ hEnd(c); live--; if(c.done<=reuse&&chance(1,2)){ if(c.alg!=5&&chance(1,3)){ static const int sw[]={6,1,7,3,4,5,0,2}; c.alg=sw[c.alg]; } count("sched.context_reused"); hBegin(c); live++; L("context %d: begun again as %s, %zu bytes",ci,algName[c.alg],c.msg.size()); } continue; }
    if(rem&&chance(1,120)){ count("fault.hash_abandoned"); hBegin(c); L("context %d: abandoned and begun again, %zu bytes",ci,c.msg.size()); continue; }
    if(limit>0&&chance(1,40)){ // an object streamed straight into the hash, from its start or resumed at an offset
      const Kind&k=kinds[pickKind()]; GenOpt g; g.big=chance(1,10); Msg m=k.gen(g); Obj*o; { Dev d; o=k.make(); o->s()->parse(m.enc.data(),m.enc.size(),RAW); } if(o->s()->getStatus()!=PARSING_DONE) fail("spurious-failure","well-formed %s rejected",k.name); size_t from= chance(1,3)? choose(m.emit.size()+1) : 0; size_t r; { Dev d; r=algo(c)->serialize(o->s(),from); delete o; } c.msg.insert(c.msg.begin()+c.off,m.emit.begin()+from,m.emit.end()); CHECK(r==m.emit.size()-from,"byte-count","hashing a %s reports %zu of %zu bytes",k.name,r,m.emit.size()-from); c.off+=r; count("sched.object_hashed"); nontrivial(); L(" %d + %s of %zu bytes from %zu",ci,k.name,m.emit.size(),from); continue; }
    size_t f; if(--limit<0) f=rem; else switch(c.fm){ case 0: f=rem; break; case 1: f=1; break; case 2: f=choose(4); break; case 3: f=oneOf({63,64,65,1,127,128,129,55,56}); break; case 4: f=choose(200); break; default: f= c.off%64? 64-c.off%64 : 64; } f=std::min(f,rem); bool byByte=f==1&&chance(1,2); if(f<c.msg.size()) { nontrivial(); count("sched.fragment"); } if(f==0) count("sched.empty_fragment");
    size_t mis=choose(4); uint8_t*p=(uint8_t*)malloc(f+mis+1); memcpy(p+mis+1,c.msg.data()+c.off,f); { Dev d; HashAlgorithm*a=algo(c); if(byByte) a->write(p[mis+1]); else a->write(p+mis+1,f); } free(p); c.off+=f; L(" %d +%zu",ci,f);
    if(chance(1,60)&&c.alg!=5){ // a context is a plain value: a copy taken in mid-message continues independently
      HCtx k=c; Bytes restMsg=blob(choose(100)); Bytes m2(c.msg.begin(),c.msg.begin()+c.off); app(m2,restMsg); k.msg=m2; { Dev d; algo(k)->write(restMsg.data(),restMsg.size()); } hEnd(k); count("sched.context_copied"); } }
  for(auto&c:cs){ Dev d; delete c.tag; } checkNoLeak("after hashing"); }
static Reg r10("C10",c10);

// ---------------------------------------------------------------- C11
static std::vector<std::string> split(const std::string&s){ std::vector<std::string> v; std::string w; for(char c:s){ if(c==' '){ v.push_back(w); w.clear(); } else w+=c; } v.push_back(w); return v; }
static std::string join(const std::vector<std::string>&v){ std::string s; for(size_t i=0;i<v.size();i++) s+=(i?" ":"")+v[i]; return s; }
static void judgePhrase(const std::string&ph,bool own){ Bytes ent; bool valid=mnemonicValid(ph,&ent); bool got; { Dev d; got=checkMnemonic(ph); } L("check: %d",got); CHECK(got==valid,"wrong-verdict","checkMnemonic says %d, BIP-39 says %d: %s",got,valid,ph.c_str()); if(own) CHECK(valid,"bad-phrase","generated phrase has no valid checksum: %s",ph.c_str());
  if(valid){ uint8_t o[40]; memset(o,0xEE,sizeof o); size_t room= chance(1,4)? ent.size() : 33; size_t n; int how=choose(3); uint8_t*raw=(uint8_t*)malloc(ph.size()); memcpy(raw,ph.data(),ph.size()); // also as a bare block with a length and no terminator
    { Dev d; n= how==0? mnemonicToEntropy(ph.c_str(),ph.size(),o,room) : how==1? mnemonicToEntropy(ph,o,room) : mnemonicToEntropy((const char*)raw,ph.size(),o,room); } free(raw); CHECK(n==ent.size()&&B(o,n)==ent,"wrong-entropy","converted back to %zu bytes %s, expected %s",n,hx(o,std::min(n,(size_t)40)).c_str(),hx(ent).c_str()); for(size_t i=room;i<40;i++) CHECK(o[i]==0xEE,"overrun","mnemonicToEntropy wrote past the output"); 
    if(chance(1,6)){ uint8_t small[8]; size_t m; { Dev d; m=mnemonicToEntropy(ph.c_str(),ph.size(),small,8); } CHECK(m==0,"overrun","entropy larger than the output buffer reported as %zu",m); } } }
static void c11(){ int n=1+choose(3); std::string last; budget(400000000ull); for(int i=0;i<n;i++){ bool sup=!chance(1,8); u32 words= sup? oneOf({12,15,18,21,24}) : (choose(2)? choose(40) : choose(256)); bool supported= words==12||words==15||words==18||words==21||words==24; int how=choose(5); std::string ph; bool none=false; Bytes ent;
    if(how<=2){ rngPlan(true); g_rng.keep=true; const char*p; { Dev d; p=generateMnemonic((uint8_t)words); } none=p==nullptr; if(p) ph=p; Bytes drawn; for(u32 w:g_rng.drawn) put(drawn,w,4); L("generate %u words: %s",words,none?"(none)":ph.c_str()); if(supported){ CHECK(drawn.size()>=words*4/3,"bad-phrase","only %zu random bytes drawn for %u words",drawn.size(),words); ent.assign(drawn.begin(),drawn.begin()+words*4/3); } count("kind.generated"); }
    else if(how==3){ Bytes e=blob(choose(100)); const char*p; int form=choose(4); if(form>=2){ words=24; supported=true; } std::string es((char*)e.data(),e.size()); if(form&1) es=hx(e); Bytes em(es.begin(),es.end()); { Dev d; switch(form){ case 0: p=generateMnemonic((uint8_t)words,e.data(),e.size()); break; case 1: p=generateMnemonic((uint8_t)words,es); break; case 2: p=generateMnemonic(e.data(),e.size()); break; default: p=generateMnemonic(es); } } if(form&1) e=em; none=p==nullptr; if(p) ph=p; L("from data %u words: %s",words,none?"(none)":ph.c_str()); Bytes hsh=sha256(e); if(supported) ent.assign(hsh.begin(),hsh.begin()+words*4/3); count("kind.from_data"); nontrivial(); }
    else { size_t len= supported? words*4/3 : choose(40); bool ok=len%4==0&&len>=16&&len<=32; Bytes e=blob(len); const char*p; { Dev d; p=mnemonicFromEntropy(e.data(),e.size()); } none=p==nullptr; if(p) ph=p; L("from %zu bytes: %s",len,none?"(none)":ph.c_str()); supported=ok; ent=e; count("kind.from_entropy"); nontrivial(); }
    if(!supported){ CHECK(none||ph.empty(),"bad-phrase","unsupported size gives a phrase: %s",ph.c_str()); count("probe.unsupported"); continue; }
    CHECK(!none,"bad-phrase","no phrase for a supported size"); std::string w=mnemonic(ent); CHECK(ph==w,"bad-phrase","phrase does not encode the random bytes drawn (%s): got %s expected %s",hx(ent).c_str(),ph.c_str(),w.c_str());
    judgePhrase(ph,true);
    int dm=choose(4); for(int j=0;j<dm;j++){ auto v=split(ph); nontrivial(); switch(choose(7)){ case 0: v[choose(v.size())]=word(choose(2048)); count("fault.word_replaced"); break; case 1: std::swap(v[choose(v.size())],v[choose(v.size())]); count("fault.words_swapped"); break; case 2: { size_t a=choose(v.size()); v.erase(v.begin()+a); if(chance(1,3)&&v.size()>2){ v.erase(v.begin()+choose(v.size())); v.erase(v.begin()+choose(v.size())); } count("fault.word_lost"); break; } case 3: { int m=choose(2)?1:3; for(int q=0;q<m;q++) v.push_back(word(choose(2048))); count("fault.word_added"); break; } case 4: { std::string&x=v[choose(v.size())]; x[choose(x.size())]=(char)('a'+choose(26)); count("fault.letter_changed"); break; } case 5: { std::string&x=v[choose(v.size())]; if(choose(2)) x+=(char)('a'+choose(26)); else x.resize(x.size()-1); count("fault.letter_lost_or_added"); break; } default: { // last word enumerated: some of them carry a valid checksum
          v.back()=word((choose(2048))); count("fault.last_word_replaced"); } } for(auto&x:v) if(x.empty()) x="zoo"; std::string dmg=join(v); L("damaged: %s",dmg.c_str()); judgePhrase(dmg,false); } last=ph; }
  checkNoLeak("after seed phrases"); }
static Reg r11("C11",c11);

// ---------------------------------------------------------------- C14
struct Abort: std::exception{};
struct CbPlan{ int act; int at; }; static std::vector<float> g_vals; static std::vector<int> g_acts; static int g_abortAt=-1; static size_t g_calls=0; static int g_depth=0; static std::string g_nest; static void nested(int act); static float g_prevOuter;
static void callback(float f){ Host h; g_calls++; g_vals.push_back(f); int i=(int)g_calls-1; L("callback %d: %.9g",i,f); if(g_abortAt==i){ count("fault.callback_abort"); nontrivial(); throw Abort(); } int act= i<(int)g_acts.size()? g_acts[i]:0; if(act){ nontrivial(); nested(act); } }
static std::vector<float> g_inner; static void cbInner(float f){ Host h; g_inner.push_back(f); }
static void checkValues(const std::vector<float>&v,const char*who){ CHECK(v.size(),"callback-values","%s: the callback was never called",who); for(size_t i=0;i<v.size();i++){ CHECK(v[i]<=1.0f,"callback-values","%s: value %zu is %.9g",who,i,v[i]); if(i) CHECK(v[i]>v[i-1],"callback-values","%s: value %zu (%.9g) does not increase over %.9g",who,i,v[i],v[i-1]); } CHECK(v.back()==1.0f,"callback-values","%s: last value is %.9g",who,v.back()); }
static void sameKey(HDPrivateKey&k,const HD&w,const char*who){ uint8_t s[32]; k.getSecret(s); CHECK(B(s,32)==w.key&&B(k.chainCode,32)==w.cc&&k.depth==0,"wrong-key","%s: derived key %s, expected %s",who,hx(s,32).c_str(),hx(w.key).c_str()); Bytes p=pubOf(w.key); PublicKey pk=k.publicKey(); uint8_t b[65]; size_t l=pk.sec(b,65); CHECK(B(b,l)==p,"wrong-key","%s: public key differs",who); }
static std::string genPhrase(){ if(chance(1,6)){ Bytes b=blob(choose(2)?choose(300):oneOf({0,1,127,128,129,240})); std::string s; for(auto x:b) s+=(char)(' '+x%95); return s; } return mnemonic(blob(oneOf({16,20,24,28,32}))); }
static std::string genPass(){ switch(choose(4)){ case 0: return ""; case 1: return "TREZOR"; default: { Bytes b=blob(choose(2)?choose(40):choose(300)); std::string s; for(auto x:b) s+=(char)(1+x%255); return s; } } }
static void nested(int act){ count((std::string("sched.nested_")+std::to_string(act)).c_str()); switch(act){
  case 1: { Bytes m=blob(choose(300)),k=blob(choose(150)); uint8_t o[64]; { Dev d; SHA512 s; s.beginHMAC(k.data(),k.size()); s.write(m.data(),m.size()); s.endHMAC(o); } CHECK(B(o,64)==hmac512(k,m),"nested-result","nested HMAC is wrong"); { Dev d; SHA256 s; s.begin(); s.write(m.data(),m.size()); s.end(o); } CHECK(B(o,32)==sha256(m),"nested-result","nested hash is wrong"); break; }
  case 2: { Bytes k=key32(),h=sha256(blob(4)); uint8_t b[65]; { Dev d; PrivateKey pk(k.data()); Signature s=pk.sign(h.data()); s.bin(b,65); } Ecdsa e=sign(k,h); CHECK(B(b,64)==cat(e.r,e.s),"nested-result","nested signature is wrong"); break; }
  case 3: { GenOpt g; g.big=false; const Kind&k=kinds[pickKind()]; Msg m=k.gen(g); Obj*o; { Dev d; o=k.make(); } deliver(o->s(),m.enc); std::string got=o->dump(); CHECK(got==m.dump,"nested-result","nested %s: %s",k.name,diff(m.dump,got).c_str()); { Dev d; delete o; } break; }
  case 4: { if(g_depth){ break; } g_depth++; std::string ph=genPhrase(),pw=genPass(); HDPrivateKey k; g_inner.clear(); { Dev d; k.fromMnemonic(ph.c_str(),ph.size(),pw.c_str(),pw.size(),&Mainnet,chance(1,2)?cbInner:nullptr); } if(g_inner.size()) checkValues(g_inner,"nested derivation"); sameKey(k,master(bip39seed(ph,pw)),"nested derivation"); g_depth--; break; }
  case 5: { HD h; h.key=key32(); h.cc=blob(32); h.depth=1; h.pfp=blob(4); h.child=3; u32 i=word32(); HDPrivateKey c; { Dev d; HDPrivateKey r(h.key.data(),h.cc.data(),1,h.pfp.data(),3); c=r.child(i); } HD w=ckd(h,i); uint8_t s[32]; c.getSecret(s); CHECK(B(s,32)==w.key&&B(c.chainCode,32)==w.cc,"nested-result","nested child derivation is wrong"); break; }
  case 6: { rngPlan(false); std::string ph; { Dev d; const char*p=generateMnemonic(12); Host h; ph=p?p:""; } bool ok; { Dev d; ok=checkMnemonic(ph); } CHECK(ok,"nested-result","nested phrase does not check"); break; }
  default: { // pump a link that the outer task left half-way is C06's business; here: text codecs
    Bytes k=key32(); std::string w; { Dev d; PrivateKey pk(k.data()); w=pk.wif(); } Bytes raw(1,0x80); app(raw,k); raw.push_back(1); CHECK(w==base58check(raw),"nested-result","nested WIF is wrong"); } } }
static void c14(){ std::string ph=genPhrase(), pw=genPass(); g_acts.clear(); int acts=choose(4); for(int i=0;i<8;i++) g_acts.push_back(acts? (chance(1,2)? 1+choose(7):0):0); int d4=0; for(auto&a:g_acts) if(a==4&&d4++) a=1; g_abortAt= chance(1,3)? (int)choose(8):-1; const Network*net=chance(1,3)?&Testnet:&Mainnet; L("phrase \"%s\" password %zu chars, abort %d",ph.c_str(),pw.size(),g_abortAt); HD w=master(bip39seed(ph,pw)); HDPrivateKey*k; { Dev d; k=new HDPrivateKey(); }
  int prior=choose(3); if(prior==1){ Bytes s=blob(64); Dev d; k->fromSeed(s.data(),64); }
  budget(400000000ull); bool aborted=false; g_calls=0; g_vals.clear(); int form=choose(4); try{ Dev d; if(form==0) k->fromMnemonic(ph.c_str(),ph.size(),pw.c_str(),pw.size(),net,callback); else if(form==1){ HDPrivateKey t(ph.c_str(),ph.size(),pw.c_str(),pw.size(),net,callback); *k=t; } else if(form==2){ HDPrivateKey t{std::string(ph),std::string(pw),net,callback}; *k=t; } else k->fromMnemonic(std::string(ph),std::string(pw),net,callback); }catch(Abort&){ aborted=true; }
  if(aborted){ count("probe.aborted"); if(form!=1&&form!=2){ uint8_t s[32]; k->getSecret(s); CHECK(B(s,32)==Bytes(32,0)&&!k->isValid(),"key-after-abort","the aborted derivation left a key: %s",hx(s,32).c_str()); CHECK(B(k->chainCode,32)==Bytes(32,0),"key-after-abort","the aborted derivation left a chain code"); } g_abortAt=-1; g_calls=0; g_vals.clear(); { Dev d; k->fromMnemonic(ph.c_str(),ph.size(),pw.c_str(),pw.size(),net,callback); } }
  else CHECK(g_abortAt<0||(int)g_vals.size()<=g_abortAt,"abort-swallowed","the callback's abort did not reach the caller");
  checkValues(g_vals,"derivation"); sameKey(*k,w,"derivation"); CHECK(k->network==net,"wrong-key","network is not the one asked for"); { Dev d; delete k; } checkNoLeak("after derivation"); }
static Reg r14("C14",c14);
}
