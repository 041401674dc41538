// C12 (secrets in released memory), C15 (objects are independent values).
#include "world.h"
#include <string.h>
#include <algorithm>
#include <map>
#include <new>
#include <unordered_map>
extern "C" char __data_start[], _end[];
namespace sim {
using namespace ref;
Bytes keyNum(); Bytes pushOp(const Bytes&);
// ================================================================ C12
struct Pat{ std::string what; Bytes b; };                                   // one 16 byte raw or 32 character text window
static std::vector<Pat>*pats; static std::unordered_multimap<u64,u32>*idx; static u64 bloom[1024]; static u64 scanned=0,blocks=0; static const char*during="";
__attribute__((no_sanitize("address"))) static u64 k8(const void*p){ u64 v; __builtin_memcpy(&v,p,8); return v; }
static u32 bl(u64 v){ return (u32)((v*0x9e3779b97f4a7c15ull)>>48); }
static void addPat(const std::string&what,const uint8_t*p,size_t n){ u64 k=k8(p); u32 h=bl(k); bloom[h>>6]|=1ull<<(h&63); idx->insert({k,(u32)pats->size()}); pats->push_back({what,B(p,n)}); }
static void trackText(const std::string&what,const std::string&s,size_t from){ for(size_t i=from;i+32<=s.size();i++) addPat(what,(const uint8_t*)s.data()+i,32); }
static void trackRaw(const std::string&what,const Bytes&b){ for(size_t i=0;i+16<=b.size();i++) addPat(what,b.data()+i,16); std::string h=hex(b),H=h; for(auto&c:H) c=toupper(c); trackText(what+" in hex",h,0); trackText(what+" in hex",H,0); }
__attribute__((no_sanitize("address"))) static const Pat*scanMem(const uint8_t*p,size_t n,size_t*at){ scanned+=n; for(size_t i=0;i+16<=n;i++){ u64 k=k8(p+i); u32 h=bl(k); if(!(bloom[h>>6]>>(h&63)&1)) continue; auto r=idx->equal_range(k); for(auto it=r.first;it!=r.second;++it){ const Pat&q=(*pats)[it->second]; if(i+q.b.size()>n) continue; size_t j=0; while(j<q.b.size()&&p[i+j]==q.b[j]) j++; if(j==q.b.size()){ *at=i; return &q; } } } return nullptr; }
static void onFree12(void*p,size_t n,char kind){ if(kind=='n') return; blocks++; size_t at; if(const Pat*q=scanMem((uint8_t*)p,n,&at)) fail("secret-in-freed-block","%s: a block of %zu bytes is released with %s at offset %zu",during,n,q->what.c_str(),at); }
static void scanObj(const char*what,const void*p,size_t n){ size_t at; if(const Pat*q=scanMem((const uint8_t*)p,n,&at)) fail("secret-in-destroyed-object","%s: storage of a destroyed %s still holds %s at offset %zu of %zu",during,what,q->what.c_str(),at,n); }
template<class T> struct Store{ alignas(16) uint8_t b[sizeof(T)]; T*o=nullptr; const char*name; Store(const char*n):name(n){ memset(b,0,sizeof b); }
  template<class...A> T&make(A&&...a){ Dev d; o=new(b) T(std::forward<A>(a)...); return *o; }
  void kill(){ if(!o) return; { Dev d; o->~T(); } o=nullptr; scanObj(name,b,sizeof b); } ~Store(){} };
template<class T> struct MAl{ typedef T value_type; MAl(){} template<class U> MAl(const MAl<U>&){} T*allocate(size_t n){ void*p=malloc(n*sizeof(T)); if(!p) throw std::bad_alloc(); return (T*)p; } void deallocate(T*p,size_t){ free(p); } template<class U> bool operator==(const MAl<U>&)const{ return true; } template<class U> bool operator!=(const MAl<U>&)const{ return false; } };
struct Sec{ Bytes k,cc; HD hd; int v; std::string wifC,wifU,wifTC,wifTU,xprv[10]; };
static Bytes secret(){ Bytes b=sha256(cat(Bytes{'s','e','c'},blob(6))); if(ref::cmp(u256(b.data()),N_)>=0) b[0]=0x7f; return b; }
static std::string wif(const Bytes&k,bool c,bool t){ Bytes b(1,(uint8_t)(t?0xef:0x80)); app(b,k); if(c) b.push_back(1); return base58check(b); }
static void trackHD(const HD&h,const std::string&n){ trackRaw(n+"'s secret number",h.key); trackRaw(n+"'s chain code",h.cc); }
static Sec genSec(){ Sec s; s.k=secret(); s.cc=sha256(cat(Bytes{'c','c'},s.k)); s.hd.key=s.k; s.hd.cc=s.cc; s.hd.depth=choose(4); s.hd.pfp=blob(4); s.hd.child=word32(); s.v=choose(10); trackHD(s.hd,"the key");
  s.wifC=wif(s.k,true,false); s.wifU=wif(s.k,false,false); s.wifTC=wif(s.k,true,true); s.wifTU=wif(s.k,false,true); for(auto*w:{&s.wifC,&s.wifU,&s.wifTC,&s.wifTU}) trackText("the key's WIF text",*w,2); for(int i=0;i<10;i++){ s.xprv[i]=base58check(hdRaw(s.hd,PRVV[i])); trackText("the key's xprv text",s.xprv[i],30); } return s; }
static bool oom12; 
static void bad(std::string&s){ switch(choose(5)){ case 0: { size_t i=choose(s.size()); s[i]= s[i]=='3'?'4':'3'; count("fault.bad_checksum"); break; } case 1: s.resize(s.size()-1-choose(8)); count("fault.truncated"); break; case 2: s.back()= s.back()=='z'?'y':'z'; count("fault.bad_checksum"); break; case 3: s+= "11z"; count("fault.trailing"); break; default: { size_t i=20+choose(s.size()-20); s[i]= choose(2)? '0' : ' '; count("fault.bad_character"); } } }
static void step12(const Sec&s,Store<PrivateKey>&A,Store<PrivateKey>&Bq,Store<HDPrivateKey>&H,Store<HDPrivateKey>&J,Store<ECScalar>&C){
  int op=choose(32); static const char*nm[]={"construct","copy","assign","wif text","wif buffer","WIF import","scalar","scalar arithmetic","hd construct","xprv text","xprv buffer","xprv import","hd copy/assign","child","derive path","derive path text","fromSeed","stream in","stream out","toString","sign","schnorr","ecdh","vector","array","psbt","psbt","encoding","hardened child","sign an input","sign an input","fromMnemonic"}; during=nm[op]; count((std::string("kind.op_")+std::to_string(op)).c_str()); L("op %s",during);
  switch(op){
  case 0: A.kill(); { bool c=chance(1,2),t=chance(1,2); A.make(s.k.data(),c,t?&Testnet:&Mainnet); } break;
  case 1: if(A.o){ Bq.kill(); Bq.make(*A.o); } break;
  case 2: if(A.o&&Bq.o){ Dev d; *Bq.o=*A.o; } else if(A.o){ Dev d; PrivateKey t; t=*A.o; } break;
  case 3: if(A.o){ Dev d; std::string w=A.o->wif(); } break;
  case 4: if(A.o){ char b[80]; size_t n=oneOf({80,53,52,51,30,4,60}); Dev d; A.o->wif(b,n); } break;
  case 5: { std::string w=choose(2)? (choose(2)?s.wifC:s.wifU) : (choose(2)?s.wifTC:s.wifTU); bool broken=chance(1,2); if(broken){ if(choose(4)==0){ Bytes x(1,(uint8_t)choose(128)); app(x,s.k); if(choose(2)) x.push_back(1); if(choose(3)==0) app(x,blob(1+choose(6))); w=base58check(x); trackText("the key's WIF text",w,2); count("fault.wrong_version"); } else bad(w); nontrivial(); } A.kill(); int how=choose(3); if(how==0) A.make(w); else { A.make(); Dev d; if(how==1) A.o->fromWIF(w.c_str()); else A.o->fromString(w.c_str(),w.size()); } break; }
  case 6: C.kill(); if(choose(2)) C.make(s.k.data(),(size_t)32); else { C.make(); Dev d; C.o->setSecret(s.k.data()); } break;
  case 7: if(C.o&&C.o->isValid()){ Dev d; ECScalar x=*C.o; ECScalar y=x+x; y=y*x; y=-y; y-=x; x=ECScalar(1)/x; PrivateKey k(x); } break;
  case 8: H.kill(); H.make(s.k.data(),s.cc.data(),(uint8_t)s.hd.depth,s.hd.pfp.data(),s.hd.child); break;
  case 9: if(H.o){ Dev d; std::string x=H.o->xprv(); } break;
  case 10: if(H.o){ char b[130]; size_t n=oneOf({130,112,111,110,60,8}); Dev d; H.o->xprv(b,n); } break;
  case 11: { std::string x=s.xprv[choose(10)]; bool broken=chance(1,2); if(broken){ if(choose(4)==0){ Bytes r=hdRaw(s.hd,PRVV[0]); if(choose(2)) r[choose(4)]^=1+choose(255); else r.resize(r.size()-1-choose(5)); x=base58check(r); trackText("the key's xprv text",x,30); count("fault.wrong_version"); } else bad(x); nontrivial(); } H.kill(); if(choose(2)) H.make(x.c_str()); else { H.make(); Dev d; H.o->fromString(x.c_str(),x.size()); } break; }
  case 12: if(H.o){ J.kill(); J.make(*H.o); if(choose(2)){ Dev d; *H.o=*J.o; } } break;
  case 13: if(H.o&&H.o->isValid()){ u32 i=word32(); HD c=ckd(s.hd,i); trackHD(c,"the child key"); J.kill(); Dev d; new(J.b) HDPrivateKey(H.o->child(i)); J.o=(HDPrivateKey*)J.b; } break;
  case 14: if(H.o&&H.o->isValid()){ std::vector<u32> p; for(int n=1+choose(3);n>0;n--) p.push_back(word32()); HD c=s.hd; for(u32 i:p){ c=ckd(c,i); trackHD(c,"a derived key"); } J.kill(); Dev d; new(J.b) HDPrivateKey(H.o->derive(p.data(),p.size())); J.o=(HDPrivateKey*)J.b; } break;
  case 15: if(H.o&&H.o->isValid()){ std::string p="m"; HD c=s.hd; for(int n=1+choose(3);n>0;n--){ u32 i=choose(200); bool hd=choose(2); p+="/"+std::to_string(i)+(hd?"h":""); c=ckd(c,i+(hd?0x80000000u:0)); trackHD(c,"a derived key"); } if(chance(1,4)){ p+="/x"; count("fault.bad_path"); } J.kill(); Dev d; new(J.b) HDPrivateKey(H.o->derive(p.c_str())); J.o=(HDPrivateKey*)J.b; } break;
  case 16: { Bytes seed=cat(s.k,s.cc); HD m=master(seed); trackHD(m,"the master key"); J.kill(); J.make(); Dev d; J.o->fromSeed(seed.data(),64); break; }
  case 17: { Bytes e; int k=choose(3); e= k==2? hdRaw(s.hd,PRVV[s.v]) : s.k; size_t n= chance(1,2)? choose(e.size()+1) : e.size(); bool dmg=chance(1,4); if(dmg&&k==2) e[choose(4)]^=1+choose(255); if(n<e.size()||dmg){ count(n<e.size()?"fault.cut_transfer":"fault.garbled"); nontrivial(); } bool hexin=chance(1,3); std::string hxs=hex(e); SimIn in; in.push(Bytes(e.begin(),e.begin()+n)); Streamable*t; if(k==0){ A.kill(); t=&A.make(); } else if(k==1){ C.kill(); t=&C.make(); } else { H.kill(); t=&H.make(); } { Dev d; if(hexin) t->parse(hxs.c_str(),2*n); else in.parse(t); if(choose(3)==0) t->reset(); } break; }
  case 18: { Streamable*t= H.o&&choose(2)? (Streamable*)H.o : A.o? (Streamable*)A.o : (Streamable*)C.o; if(t){ if(choose(2)){ Bytes b(200); size_t off=choose(70),n=choose(160); Dev d; t->serialize(b.data(),n,off,choose(2)?RAW:HEX_ENCODING); } else { Dev d; std::string x=t->serialize((size_t)0,(size_t)0); x=t->serialize((size_t)choose(20),(size_t)choose(40)); } } break; }
  case 19: { Readable*t= H.o&&choose(2)? (Readable*)H.o : A.o? (Readable*)A.o : (Readable*)C.o; if(t){ Dev d; if(choose(2)) std::string x=t->toString(); else { char b[160]; t->toString(b,(size_t)oneOf({160,112,70,53,20})); } } break; }
  case 20: if(A.o&&A.o->isValid()){ Bytes h=sha256(blob(4)); Dev d; Signature g=A.o->sign(h.data()); } break;
  case 21: if(A.o&&A.o->isValid()){ Bytes h=sha256(blob(4)); trackRaw("the negated key",be(negN(u256(s.k.data())))); Dev d; SchnorrSignature g=A.o->schnorr_sign(h.data()); } break;
  case 22: if(A.o){ Bytes q=pubOf(key32()); uint8_t o[32]; Dev d; PublicKey p(q.data()); A.o->ecdh(p,o); } break;
  case 23: { int n=1+choose(4); Dev d; if(choose(2)&&H.o){ std::vector<HDPrivateKey,MAl<HDPrivateKey>> v; for(int i=0;i<n;i++) v.push_back(*H.o); if(choose(2)) v.erase(v.begin()); } else if(A.o){ std::vector<PrivateKey,MAl<PrivateKey>> v; for(int i=0;i<n;i++) v.push_back(*A.o); v.pop_back(); } else if(C.o){ std::vector<ECScalar,MAl<ECScalar>> v(n,*C.o); v.resize(n+3); } break; }
  case 24: { int n=1+choose(3); Dev d; if(choose(2)&&H.o){ HDPrivateKey*v=new HDPrivateKey[n]; v[0]=*H.o; v[n-1]=v[0]; delete[] v; } else if(A.o){ PrivateKey*v=new PrivateKey[n]; v[n-1]=*A.o; delete[] v; } else if(C.o){ ECScalar*v=new ECScalar[n]; v[0]=*C.o; delete[] v; } break; }
  case 28: if(H.o&&H.o->isValid()){ u32 i=word32()&0x7fffffff; HD c=ckd(s.hd,i|0x80000000u); trackHD(c,"the hardened child key"); J.kill(); Dev d; if(choose(2)) new(J.b) HDPrivateKey(H.o->child(i,true)); else new(J.b) HDPrivateKey(H.o->hardenedChild(i)); J.o=(HDPrivateKey*)J.b; } break;
  case 29: case 30: { PrivateKey*k= H.o&&H.o->isValid()&&choose(2)? (PrivateKey*)H.o : A.o&&A.o->isValid()? A.o : nullptr; if(k){ Bytes h=blob(32); int ty=choose(5); Dev d; Tx t; t.addInput(TxIn(h.data(),(uint32_t)choose(3))); t.addOutput(TxOut((uint64_t)77,Script(k->publicKey(),P2WPKH))); Script r=Script(k->publicKey(),P2PKH); Signature g; switch(ty){ case 0: g=t.signInput(0,*k); break; case 1: g=t.signSegwitInput(0,*k,(uint64_t)1000); break; case 2: g=t.signSegwitInput(0,*k,(uint64_t)1000,P2SH_P2WPKH); break; case 3: g=t.signInput(0,*k,r,SIGHASH_SINGLE); break; default: g=t.signSegwitInput(0,*k,r,(uint64_t)5,P2WSH,SIGHASH_NONE); } Host hh; if(g) count("probe.input_signed"); } break; }
  case 31: if(chance(1,3)){ std::string ph=mnemonic(Bytes(s.k.begin(),s.k.begin()+16)); Bytes seed=bip39seed(ph,"pw"); HD m=master(seed); trackHD(m,"the phrase's key"); trackRaw("the phrase's seed",seed); J.kill(); J.make(); Dev d; J.o->fromMnemonic(ph.c_str(),ph.size(),"pw",2); } break;
  case 27: { Bytes b= choose(3)? s.k : hdRaw(s.hd,PRVV[s.v]); int k=choose(3); std::string t= k==0?hex(b): k==1?base58(b): base58check(b); bool dmg=chance(1,3); trackText("the key as text",t,4); if(dmg){ bad(t); nontrivial(); } bool in=choose(2); size_t room= chance(1,4)? choose(100) : 200; uint8_t o[200]; char c[200]; Dev d; if(in) switch(k){ case 0: fromHex(t,o,room); break; case 1: fromBase58(t,o,room); break; default: fromBase58Check(t,o,room); } else { std::string x; bool str=choose(2); switch(k){ case 0: if(str) x=toHex(b.data(),b.size()); else toHex(b.data(),b.size(),c,room); break; case 1: if(str) x=toBase58(b.data(),b.size()); else toBase58(b.data(),b.size(),c,room); break; default: if(str) x=toBase58Check(b.data(),b.size()); else toBase58Check(b.data(),b.size(),c,room); } } break; }
  default: if(H.o&&H.o->isValid()){ std::vector<u32> p={0x80000000u+84,choose(5)}; HD c=s.hd; for(u32 i:p){ c=ckd(c,i); trackHD(c,"a derived key"); } Bytes pub=pubOf(c.key); MTx t; t.ver=2; t.lock=0; MIn in; in.hash=blob(32); in.idx=0; in.seq=5; t.in.push_back(in); t.out.push_back({500,p2wpkh(blob(20))}); MPsbt q; q.tx=t; Bytes k={6}; app(k,pub); Bytes v=fingerprint(s.hd); for(u32 x:p) put(v,x,4); q.in.push_back({{{1},ser(MOut{1000,p2wpkh(hash160(pub))})},{k,v}}); q.out.push_back({}); Bytes e=ser(q); Dev d; PSBT ps; ps.parse(e.data(),e.size()); int r=ps.sign(*H.o); Host h; if(r) count("probe.psbt_signed"); } }
}
static void c12(){ pats=new std::vector<Pat>; idx=new std::unordered_multimap<u64,u32>; memset(bloom,0,sizeof bloom); Sec s=genSec(); rngPlan(false); oom12=chance(1,3); u64 at= oom12? 1+choose(60) : 0, ln= oom12? oneOf({1,2,1000000}) : 0; g_onFree=onFree12;
  static Store<PrivateKey> A("private key"),Bq("private key"); static Store<HDPrivateKey> H("extended private key"),J("extended private key"); static Store<ECScalar> C("scalar"); int n=3+choose(16); L("secret %s, %d operations%s",hx(s.k).c_str(),n,oom12?", allocations will fail":""); budget(800000000ull);
  for(int i=0;i<n;i++){ if(oom12&&i==n/2){ g_heap.on=true; g_heap.failAt=g_allocs+at; g_heap.failLen=ln; } try{ step12(s,A,Bq,H,J,C); }catch(std::bad_alloc&){ count("probe.bad_alloc"); L("bad_alloc"); } if(chance(1,6)) switch(choose(5)){ case 0: A.kill(); break; case 1: Bq.kill(); break; case 2: H.kill(); break; case 3: J.kill(); break; default: C.kill(); } }
  g_heap.on=false; during="end"; A.kill(); Bq.kill(); H.kill(); J.kill(); C.kill(); size_t o; if(const Pat*q=scanMem((uint8_t*)__data_start,_end-__data_start,&o)) fail("secret-in-static-memory","all keys are destroyed, but static memory of the library still holds %s",q->what.c_str());
  if(g_allocFailures) nontrivial(); if(blocks) nontrivial(); count("probe.blocks_scanned",blocks); count("probe.bytes_scanned",scanned); g_onFree=nullptr; if(!g_allocFailures) checkNoLeak("after all keys are destroyed"); }
static Reg r12("C12",c12);

// ================================================================ C15
enum{ SC,WI,IN_,OU,TX,PS,EL,NK };
static const char*kn[]={"script","witness","input","output","transaction","psbt","electrum"};
struct Val{ int k; bool undef=false; Bytes sc; std::vector<Bytes> wi; MIn in; MOut ou; MTx tx; PModel ps; EModel el; MTx elTx; };
struct Slot{ Val v; void*o; };
static std::string S(u64 v){ return std::to_string(v); }
static std::string hs(const Script&s){ return hx(s.scriptArray,s.scriptLen); }
static Bytes serL(const Streamable&s){ Bytes b(s.length()+4); size_t n=s.serialize(b.data(),b.size(),(size_t)0,RAW); b.resize(std::min(n,b.size())); return b; }
static std::string wantS(const Val&v){ switch(v.k){ case SC: return hx(v.sc); case WI: return S(v.wi.size())+" "+hx(serWit(v.wi)); case IN_: return hx(v.in.hash)+":"+S(v.in.idx)+" "+hx(v.in.script)+" "+S(v.in.seq)+" "+hx(serWit(v.in.wit)); case OU: return S(v.ou.amt)+" "+hx(v.ou.spk); case TX: return dumpM(v.tx); case PS: return dumpM(v.ps); default: return dumpM(v.el); } }
static std::string gotS(const Slot&s){ switch(s.v.k){ case SC: return hs(*(Script*)s.o); case WI: { Witness&w=*(Witness*)s.o; return S(w.count())+" "+hx(serL(w)); } case IN_: { TxIn&x=*(TxIn*)s.o; return hx(x.hash,32)+":"+S(x.outputIndex)+" "+hs(x.scriptSig)+" "+S(x.sequence)+" "+hx(serL(x.witness)); } case OU: { TxOut&x=*(TxOut*)s.o; return S(x.amount)+" "+hs(x.scriptPubkey); } case TX: return dumpL(*(Tx*)s.o); case PS: return dumpL(*(PSBT*)s.o); default: return dumpL(*(ElectrumTx*)s.o); } }
static Bytes wantB(const Val&v){ switch(v.k){ case SC: return encScript(v.sc); case WI: return serWit(v.wi); case IN_: return ser(v.in); case OU: return ser(v.ou); case TX: return ser(v.tx); case PS: return psbtOut(v.ps); default: return ser(v.el.tx,false); } }
static Streamable*st(const Slot&s){ switch(s.v.k){ case SC: return (Script*)s.o; case WI: return (Witness*)s.o; case IN_: return (TxIn*)s.o; case OU: return (TxOut*)s.o; case TX: return (Tx*)s.o; case PS: return (PSBT*)s.o; default: return (ElectrumTx*)s.o; } }
static void kill(Slot&s){ Dev d; switch(s.v.k){ case SC: delete (Script*)s.o; break; case WI: delete (Witness*)s.o; break; case IN_: delete (TxIn*)s.o; break; case OU: delete (TxOut*)s.o; break; case TX: delete (Tx*)s.o; break; case PS: delete (PSBT*)s.o; break; default: delete (ElectrumTx*)s.o; } s.o=nullptr; }
static void*fresh(int k){ Dev d; switch(k){ case SC: return new Script; case WI: return new Witness; case IN_: return new TxIn; case OU: return new TxOut; case TX: return new Tx; case PS: return new PSBT; default: return new ElectrumTx; } }
static void*dup(const Slot&s){ Dev d; switch(s.v.k){ case SC: return new Script(*(Script*)s.o); case WI: return new Witness(*(Witness*)s.o); case IN_: return new TxIn(*(TxIn*)s.o); case OU: return new TxOut(*(TxOut*)s.o); case TX: return new Tx(*(Tx*)s.o); case PS: return new PSBT(*(PSBT*)s.o); default: return new ElectrumTx(*(ElectrumTx*)s.o); } }
static void assign(Slot&a,const Slot&b){ Dev d; switch(a.v.k){ case SC: *(Script*)a.o=*(Script*)b.o; break; case WI: *(Witness*)a.o=*(Witness*)b.o; break; case IN_: *(TxIn*)a.o=*(TxIn*)b.o; break; case OU: *(TxOut*)a.o=*(TxOut*)b.o; break; case TX: *(Tx*)a.o=*(Tx*)b.o; break; case PS: *(PSBT*)a.o=*(PSBT*)b.o; break; default: *(ElectrumTx*)a.o=*(ElectrumTx*)b.o; } }
static void swap2(Slot&a,Slot&b){ Dev d; switch(a.v.k){ case SC: std::swap(*(Script*)a.o,*(Script*)b.o); break; case WI: std::swap(*(Witness*)a.o,*(Witness*)b.o); break; case IN_: std::swap(*(TxIn*)a.o,*(TxIn*)b.o); break; case OU: std::swap(*(TxOut*)a.o,*(TxOut*)b.o); break; case TX: std::swap(*(Tx*)a.o,*(Tx*)b.o); break; case PS: std::swap(*(PSBT*)a.o,*(PSBT*)b.o); break; default: std::swap(*(ElectrumTx*)a.o,*(ElectrumTx*)b.o); } }
static Bytes sigPart(Signature&sig){ Bytes r=blob(32),s=blob(32); r[31]|=1; s[31]|=1; if(choose(3)==0){ r[0]=0; r[1]&=0x7f; } Bytes b=cat(r,s); { Dev d; sig.fromBin(b.data(),64); } Bytes o=der(r,s); o.push_back(1); return o; }
static void parseInto(Slot&s,const Bytes&e,bool partial){ size_t n= partial? choose(e.size()) : e.size(); SimIn in; size_t at=0; int mode=choose(3)?0:3; { Dev d; st(s)->reset(); } while(at<n){ size_t c=std::min(n-at,chunkSize(mode,n-at)); in.push(Bytes(e.begin()+at,e.begin()+at+c)); at+=c; Dev d; in.parse(st(s)); } if(!partial&&st(s)->getStatus()!=PARSING_DONE) fail("spurious-failure","well-formed %s not accepted",kn[s.v.k]); }
static GenOpt small(){ GenOpt g; g.big=chance(1,8); return g; }
static void receive(Slot&s){ GenOpt g=small(); Val&v=s.v; Bytes e; Val n; n.k=v.k; switch(v.k){ case SC: n.sc=genScript(g); e=encScript(n.sc); break; case WI: n.wi=genWit(g); e=serWit(n.wi); break; case IN_: n.in=genIn(g); e=ser(n.in); break; case OU: n.ou=genOut(g); e=ser(n.ou); break; case TX: n.tx=genTx(g,2); e=ser(n.tx); break; case PS: { PsbtMsg p=genPsbt(g); n.ps=p.m; e=p.enc; break; } default: n.el=genElectrum(g); e=electrumEnc(n.el); }
  bool partial=chance(1,6); parseInto(s,e,partial); n.undef=partial; if(partial) count("fault.cut_transfer"); v=n; L("  receives %zu bytes%s",e.size(),partial?" (cut)":""); }
// fields of a script, witness, input or output wherever it lives
static bool pushScript(Script&x,Bytes&m,std::vector<Slot*>&same){ int how=choose(7); size_t r,w; switch(how){ case 0: { uint8_t c=choose(256); { Dev d; r=x.push(c); } m.push_back(c); w=m.size(); break; } case 1: case 2: { Bytes b=blob(oneOf({0,1,5,20,75,76,200,252,253,300})); if(m.size()+b.size()>9000) return false; { Dev d; r=x.push(b.data(),b.size()); } app(m,b); w=m.size(); break; }
  case 3: { bool c=choose(2); Bytes p=pubOf(key32(),c); if(m.size()>9000) return false; { Dev d; PublicKey k(p.data()); r=x.push(k); } m.push_back(p.size()); app(m,p); w=m.size(); break; }
  case 4: { Signature g; Bytes b=sigPart(g); if(m.size()>9000) return false; { Dev d; r=x.push(g); } m.push_back(b.size()); app(m,b); w=m.size(); break; }
  case 5: { Bytes self=m; if(m.size()*2>9000) return false; { Dev d; r=x.push(x); } app(m,pushOp(self)); w=m.size(); break; }
  default: { if(same.empty()) return false; Slot*o=same[choose(same.size())]; if(m.size()+o->v.sc.size()>9000) return false; Bytes ob=o->v.sc; { Dev d; r=x.push(*(Script*)o->o); } app(m,pushOp(ob)); w=m.size(); } }
  CHECK(r==w,"append","push reports %zu bytes, the script has %zu",r,w); return true; }
static size_t witLen(const std::vector<Bytes>&w){ return serWit(w).size()-1; }
static bool pushWit(Witness&x,std::vector<Bytes>&m,std::vector<Slot*>&scripts){ if(m.size()>=250||witLen(m)>8000) return false; if(chance(1,25)){ size_t goal=oneOf({252,253,254,255,256,257,300,512}); count("probe.many_elements"); while(m.size()<goal){ Bytes b=blob(choose(2)); { Dev d; x.push(b.data(),b.size()); } m.push_back(b); } return true; } size_t r; switch(choose(4)){ case 0: { Bytes b=blob(oneOf({0,1,5,32,72,252,253,500})); { Dev d; r=x.push(b.data(),b.size()); } m.push_back(b); break; } case 1: { Bytes p=pubOf(key32(),choose(2)); { Dev d; PublicKey k(p.data()); r=x.push(k); } m.push_back(p); break; } case 2: { Signature g; Bytes b=sigPart(g); { Dev d; r=x.push(g); } m.push_back(b); break; } default: { if(scripts.empty()) return false; Slot*o=scripts[choose(scripts.size())]; if(o->v.sc.size()+witLen(m)>9000) return false; { Dev d; r=x.push(*(Script*)o->o); } m.push_back(o->v.sc); } }
  CHECK(r==witLen(m),"append","push reports %zu bytes, the witness has %zu",r,witLen(m)); return true; }
static void mutIn(TxIn&x,MIn&m,std::vector<Slot*>&sc,std::vector<Slot*>&wi){ switch(choose(7)){ case 0: m.idx=word32(); x.outputIndex=m.idx; break; case 1: m.seq=word32(); x.sequence=m.seq; break; case 2: m.hash=blob(32); memcpy(x.hash,m.hash.data(),32); break; case 3: pushScript(x.scriptSig,m.script,sc); break; case 4: pushWit(x.witness,m.wit,sc); break; case 5: if(sc.size()){ Slot*o=sc[choose(sc.size())]; { Dev d; x.scriptSig=*(Script*)o->o; } m.script=o->v.sc; } break; default: if(wi.size()){ Slot*o=wi[choose(wi.size())]; { Dev d; x.witness=*(Witness*)o->o; } m.wit=o->v.wi; } } }
static void mutOut(TxOut&x,MOut&m,std::vector<Slot*>&sc){ switch(choose(3)){ case 0: m.amt=word64(); x.amount=m.amt; break; case 1: pushScript(x.scriptPubkey,m.spk,sc); break; default: if(sc.size()){ Slot*o=sc[choose(sc.size())]; { Dev d; x.scriptPubkey=*(Script*)o->o; } m.spk=o->v.sc; } } }
static size_t byValue(Script s){ s.push((uint8_t)1); return s.length(); }
static size_t byValue(Witness w){ uint8_t b[3]={1,2,3}; w.push(b,3); return w.length(); }
static size_t byValue(TxIn x){ x.scriptSig.push((uint8_t)7); x.witness=Witness(); return x.length(); }
static size_t byValue(TxOut x){ x.scriptPubkey=Script(); x.amount=0; return x.length(); }
static size_t byValue(Tx t){ TxOut o; t.addOutput(o); if(t.inputsNumber){ t.txIns[0].scriptSig.push((uint8_t)9); } return t.length(); }
static size_t byValue(PSBT p){ for(size_t i=0;i<p.tx.inputsNumber;i++){ p.txInsMeta[i].redeemScript.push((uint8_t)3); p.txInsMeta[i].txOut.amount++; if(p.txInsMeta[i].derivationsLen&&p.txInsMeta[i].derivations[0].derivationLen) p.txInsMeta[i].derivations[0].derivation[0]^=1; } return p.length(); }
static size_t byValue(ElectrumTx e){ for(size_t i=0;i<e.tx.inputsNumber;i++){ e.txInsMeta[i].amount++; e.tx.txIns[i].sequence^=1; } return e.length(); }
template<class T> static void vec(T*o){ Dev d; std::vector<T> v; int n=1+choose(4); for(int i=0;i<n;i++) v.push_back(*o); if(choose(2)) v.erase(v.begin()); if(choose(2)&&v.size()) v.push_back(v[0]); if(v.size()) *o=v[choose(v.size())]; }
static Bytes rev(Bytes b){ std::reverse(b.begin(),b.end()); return b; }
// identifiers and signature hashes are functions of the current value alone
static void digests(const Tx&t,const MTx&m,int who){ if(m.in.empty()) return; uint8_t a[32],b[32]; { Dev d; t.txid(a); t.wtxid(b); } CHECK(B(a,32)==rev(txhash(m)),"value","object %d: txid is not that of its content",who); CHECK(B(b,32)==rev(dsha(ser(m))),"value","object %d: wtxid is not that of its content",who);
  size_t i=choose(m.in.size()); Bytes code= choose(2)? p2pkh(blob(20)) : blob(oneOf({0,1,34,105,252,253,300})); u64 amt=word64(); u32 type= choose(3)?1:2+choose(2); { Dev d; Script sc(code.data(),code.size()); t.sigHash(a,i,sc,(SigHashType)1); t.sigHashSegwit(b,i,sc,amt,(SigHashType)1); } (void)type; CHECK(B(a,32)==sighash(m,i,code),"value","object %d: legacy signature hash of input %zu is not that of its content",who,i); CHECK(B(b,32)==sighash143(m,i,code,amt),"value","object %d: segwit signature hash of input %zu is not that of its content",who,i); count("probe.digests"); }
static void c15(){ std::vector<Slot> P; rngPlan(false); int steps=4+choose(28); budget(800000000ull); int maxSlots=2+choose(6); bool focus=chance(1,2); int fk=choose(NK);
  auto pickKind15=[&]{ return focus&&choose(3)? fk : (int)choose(NK); };
  auto of=[&](int k,bool def=true){ std::vector<Slot*> r; for(auto&s:P) if(s.v.k==k&&(!def||!s.v.undef)) r.push_back(&s); return r; };
  for(int i=0;i<steps;i++){ int op=choose(12); if(P.empty()||((int)P.size()<maxSlots&&op==0)) op=0; 
    if(op==0){ int k=pickKind15(); Slot s; s.v.k=k; Val&v=s.v; std::vector<Slot*> sc=of(SC),wi=of(WI); v.in.hash=Bytes(32,0); v.in.idx=0; v.in.seq=0; v.ou.amt=0; v.tx.ver=1; v.tx.lock=0; v.ps.tx=v.tx; v.el.tx=v.tx; v.el.segwit=false; int how=choose(4); 
      if(how==0) s.o=fresh(k); else switch(k){
        case SC: if(how==1){ v.sc=blob(oneOf({0,1,22,100,252,253,254,600})); Dev d; s.o=new Script(v.sc.data(),v.sc.size()); } else if(how==2||sc.empty()){ Bytes p=pubOf(key32()); bool w=choose(2); v.sc= w? p2wpkh(hash160(p)) : p2pkh(hash160(p)); Dev d; PublicKey q(p.data()); s.o=new Script(q,w?P2WPKH:P2PKH); } else { Slot*o=sc[choose(sc.size())]; bool w=choose(2); v.sc= w? p2wsh(o->v.sc) : p2sh(o->v.sc); Dev d; s.o= choose(2)? new Script(((Script*)o->o)->scriptPubkey(w?P2WSH:P2SH)) : new Script(*(Script*)o->o,w?P2WSH:P2SH); } break;
        case WI: if(how==1){ GenOpt g=small(); v.wi=genWit(g); Bytes e=serWit(v.wi); Dev d; s.o=new Witness(e.data(),e.size()); } else { Signature g; Bytes b=sigPart(g),p=pubOf(key32()); v.wi={b,p}; Dev d; PublicKey q(p.data()); s.o=new Witness(g,q); } break;
        case IN_: { Bytes id=blob(32); v.in.hash=Bytes(id.rbegin(),id.rend()); v.in.idx=word32(); v.in.seq=word32(); if(sc.size()&&choose(2)){ Slot*o=sc[choose(sc.size())]; v.in.script=o->v.sc; Dev d; s.o= how==1? new TxIn(id.data(),v.in.idx,*(Script*)o->o,v.in.seq) : new TxIn(hex(id).c_str(),v.in.idx,*(Script*)o->o,v.in.seq); } else { std::string h=hex(id); Dev d; s.o= how==1? new TxIn(id.data(),v.in.idx,v.in.seq) : new TxIn(h.c_str(),v.in.idx,v.in.seq); } break; }
        case OU: if(sc.size()){ Slot*o=sc[choose(sc.size())]; v.ou.amt=word64(); v.ou.spk=o->v.sc; Dev d; s.o= how==1? new TxOut(v.ou.amt,*(Script*)o->o) : new TxOut(*(Script*)o->o,v.ou.amt); } else s.o=fresh(k); break;
        default: s.o=fresh(k); receive(s); }
      P.push_back(s); L("new %s %zu: %s",kn[k],P.size()-1,cut(wantS(v),80).c_str()); }
    else { Slot&a=P[choose(P.size())]; int ai=&a-&P[0]; std::vector<Slot*> same=of(a.v.k,false),sc=of(SC),wi=of(WI); auto idxOf=[&](Slot*x){ return (int)(x-&P[0]); };
      switch(op){
      case 1: { if((int)P.size()>=maxSlots+2) break; L("copy %d",ai); Slot s; s.v=a.v; s.o=dup(a); if(wantS(a.v).size()>8) nontrivial(); count("sched.copy"); P.push_back(s); break; }
      case 2: case 3: { Slot*b=same[choose(same.size())]; L("%d = %d (%s)",ai,idxOf(b),kn[a.v.k]); assign(a,*b); if(b!=&a){ a.v=b->v; nontrivial(); count("sched.assign"); } else count("sched.self_assign"); break; }
      case 4: { L("destroy %d",ai); kill(a); P.erase(P.begin()+ai); break; }
      case 5: L("receive into %d (%s)",ai,kn[a.v.k]); receive(a); break;
      case 6: { Slot*b=same[choose(same.size())]; if(b!=&a){ L("swap %d %d",ai,idxOf(b)); swap2(a,*b); std::swap(a.v,b->v); nontrivial(); } break; }
      case 7: if(!a.v.undef){ L("pass %d by value",ai); size_t r; Dev d; switch(a.v.k){ case SC: r=byValue(*(Script*)a.o); break; case WI: r=byValue(*(Witness*)a.o); break; case IN_: r=byValue(*(TxIn*)a.o); break; case OU: r=byValue(*(TxOut*)a.o); break; case TX: r=byValue(*(Tx*)a.o); break; case PS: r=byValue(*(PSBT*)a.o); break; default: r=byValue(*(ElectrumTx*)a.o); } nontrivial(); } break;
      case 8: if(!a.v.undef){ L("grow a vector of %d",ai); switch(a.v.k){ case SC: vec((Script*)a.o); break; case WI: vec((Witness*)a.o); break; case IN_: vec((TxIn*)a.o); break; case OU: vec((TxOut*)a.o); break; case TX: vec((Tx*)a.o); break; case PS: vec((PSBT*)a.o); break; default: vec((ElectrumTx*)a.o); } nontrivial(); } break;
      default: if(a.v.undef) break; L("mutate %d (%s)",ai,kn[a.v.k]); switch(a.v.k){
        case SC: if(chance(1,10)){ { Dev d; ((Script*)a.o)->clear(); } a.v.sc.clear(); } else pushScript(*(Script*)a.o,a.v.sc,sc); break;
        case WI: if(chance(1,10)){ { Dev d; ((Witness*)a.o)->clear(); } a.v.wi.clear(); } else pushWit(*(Witness*)a.o,a.v.wi,sc); break;
        case IN_: mutIn(*(TxIn*)a.o,a.v.in,sc,wi); break;
        case OU: mutOut(*(TxOut*)a.o,a.v.ou,sc); break;
        case TX: { Tx&t=*(Tx*)a.o; MTx&m=a.v.tx; std::vector<Slot*> ins=of(IN_),ous=of(OU); bool full=m.in.size()>=40||m.out.size()>=40; switch(choose(10)){
          case 0: if(ins.size()&&!full){ Slot*o=ins[choose(ins.size())]; int rep= chance(1,25)? 12 : o->v.in.script.size()+witLen(o->v.in.wit)<60&&chance(1,40)? (int)oneOf({252,253,254,255})-(int)m.in.size() : 1; if(rep>12) count("probe.many_inputs"); for(int q=0;q<rep;q++){ size_t r; { Dev d; r=t.addInput(*(TxIn*)o->o); } m.in.push_back(o->v.in); CHECK(r==m.in.size(),"append","addInput reports %zu inputs, there are %zu",r,m.in.size()); } } break;
          case 1: if(ous.size()&&!full){ Slot*o=ous[choose(ous.size())]; int rep= o->v.ou.spk.size()<60&&chance(1,40)? (int)oneOf({252,253,254,255})-(int)m.out.size() : 1; for(int q=0;q<rep;q++){ size_t r; { Dev d; r=t.addOutput(*(TxOut*)o->o); } m.out.push_back(o->v.ou); CHECK(r==m.out.size(),"append","addOutput reports %zu outputs, there are %zu",r,m.out.size()); } } break;
          case 2: if(m.in.size()&&!full){ size_t j=choose(m.in.size()); MIn c=m.in[j]; size_t r; { Dev d; r=t.addInput(t.txIns[j]); } m.in.push_back(c); CHECK(r==m.in.size(),"append","addInput reports %zu inputs, there are %zu",r,m.in.size()); } break;
          case 3: if(m.out.size()&&!full){ size_t j=choose(m.out.size()); MOut c=m.out[j]; size_t r; { Dev d; r=t.addOutput(t.txOuts[j]); } m.out.push_back(c); CHECK(r==m.out.size(),"append","addOutput reports %zu outputs, there are %zu",r,m.out.size()); } break;
          case 4: case 5: if(m.in.size()){ size_t j=choose(m.in.size()); mutIn(t.txIns[j],m.in[j],sc,wi); } break;
          case 6: if(m.out.size()){ size_t j=choose(m.out.size()); mutOut(t.txOuts[j],m.out[j],sc); } break;
          case 7: if(m.in.size()&&ins.size()){ size_t j=choose(m.in.size()); Slot*o=ins[choose(ins.size())]; { Dev d; if(choose(2)){ t.txIns[j]=*(TxIn*)o->o; m.in[j]=o->v.in; } else { *(TxIn*)o->o=t.txIns[j]; o->v.in=m.in[j]; } } } break;
          case 8: if(m.in.size()>1){ size_t j=choose(m.in.size()),q=choose(m.in.size()); { Dev d; t.txIns[j]=t.txIns[q]; } MIn c=m.in[q]; m.in[j]=c; } break;
          default: m.ver=word32(); m.lock=word32(); t.version=m.ver; t.locktime=m.lock; } break; }
        case PS: { PSBT&p=*(PSBT*)a.o; PModel&m=a.v.ps; std::vector<Slot*> txs=of(TX); if(m.in.empty()) break; size_t j=choose(m.in.size()); switch(choose(6)){
          case 0: { Bytes v=genScript(small()); if(v.size()>9000||m.in.size()>20) break; int which=choose(2); int r; { Dev d; Script k; k.push((uint8_t)(4+which)); Script vv(v.data(),v.size()); r=p.add(1+j,&k,&vv); } (which?m.in[j].wscript:m.in[j].redeem)=v; CHECK(r==1,"append","PSBT::add of a script returns %d",r); break; }
          case 1: { MDer d0; d0.pub=pubOf(key32()); d0.fp=blob(4); for(int q=choose(5);q>0;q--) d0.path.push_back(word32()); Bytes kb={6}; app(kb,d0.pub); Bytes vb=d0.fp; for(u32 x:d0.path) put(vb,x,4); bool dupe=false; for(auto&e:m.in[j].der) if(e.pub==d0.pub) dupe=true; if(dupe||m.in[j].der.size()>=200) break; int r; { Dev d; Script k(kb.data(),kb.size()),v(vb.data(),vb.size()); r=p.add(1+j,&k,&v); } m.in[j].der.push_back(d0); CHECK(r==1,"append","PSBT::add of a derivation returns %d",r); break; }
          case 2: m.in[j].amt=word64(); p.txInsMeta[j].txOut.amount=m.in[j].amt; break;
          case 3: pushScript(p.txInsMeta[j].redeemScript,m.in[j].redeem,sc); break;
          case 4: if(m.in[j].der.size()&&m.in[j].der[0].path.size()){ u32 x=word32(); m.in[j].der[0].path[0]=x; p.txInsMeta[j].derivations[0].derivation[0]=x; } break;
          default: if(txs.size()){ Slot*o=txs[choose(txs.size())]; { Dev d; *(Tx*)o->o=p.tx; } o->v.tx=m.tx; } } break; }
        default: { ElectrumTx&e=*(ElectrumTx*)a.o; EModel&m=a.v.el; std::vector<Slot*> txs=of(TX); if(m.in.empty()) break; size_t j=choose(m.in.size()); switch(choose(3)){ case 0: m.in[j].amt=word64(); e.txInsMeta[j].amount=m.in[j].amt; break; case 1: m.tx.lock=word32(); e.tx.locktime=m.tx.lock; break; default: if(txs.size()){ Slot*o=txs[choose(txs.size())]; { Dev d; *(Tx*)o->o=e.tx; } o->v.tx=m.tx; } } } } } }
    for(auto&s:P){ if(s.v.undef) continue; std::string w=wantS(s.v),g=gotS(s); int i2=&s-&P[0]; CHECK(w==g,"value","object %d (%s) does not hold its value: %s",i2,kn[s.v.k],diff(w,g).c_str()); if(s.v.k==PS&&s.v.ps.in.empty()) continue; Bytes wb=wantB(s.v),gb=serL(*st(s)); CHECK(wb==gb,"value","object %d (%s) serializes wrongly: %s",i2,kn[s.v.k],diff(hx(wb),hx(gb)).c_str()); CHECK(st(s)->length()==wb.size(),"value","object %d (%s) announces %zu bytes, has %zu",i2,kn[s.v.k],st(s)->length(),wb.size());
      if(chance(1,8)) switch(s.v.k){ case TX: digests(*(Tx*)s.o,s.v.tx,i2); break; case PS: digests(((PSBT*)s.o)->tx,s.v.ps.tx,i2); break; case EL: digests(((ElectrumTx*)s.o)->tx,s.v.el.tx,i2); break; case SC: { Script&x=*(Script*)s.o; Bytes c=s.v.sc; ScriptType w= c.size()==25&&c[0]==0x76&&c[1]==0xa9&&c[2]==20&&c[23]==0x88&&c[24]==0xac? P2PKH : c.size()==23&&c[0]==0xa9&&c[1]==20&&c[22]==0x87? P2SH : c.size()==22&&c[0]==0&&c[1]==20? P2WPKH : c.size()==34&&c[0]==0&&c[1]==32? P2WSH : UNKNOWN_TYPE; ScriptType g2; { Dev d; g2=x.type(); } if(w!=UNKNOWN_TYPE) CHECK(g2==w,"value","object %d: script type %d, expected %d",i2,g2,w); else CHECK(g2!=P2PKH&&g2!=P2SH&&g2!=P2WPKH&&g2!=P2WSH,"value","object %d: script type %d for another script",i2,g2); Script e2; { Dev d; e2=Script(c.data(),c.size()); } CHECK(e2==x&&!(e2!=x),"value","object %d: an equal script compares different",i2); break; } default: break; } }
  }
  while(P.size()){ size_t i=choose(P.size()); kill(P[i]); P.erase(P.begin()+i); } checkNoLeak("after all objects are destroyed"); }
static Reg r15("C15",c15);
}
