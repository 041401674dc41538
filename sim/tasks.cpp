// C06: tasks on separate objects under a preemptive scheduler (fibers switched at basic-block granularity).
#include "world.h"
#include <ucontext.h>
#include <sys/mman.h>
#include <string.h>
#include <algorithm>
#include <memory>
extern "C" { void __sanitizer_start_switch_fiber(void**,const void*,size_t); void __sanitizer_finish_switch_fiber(void*,const void**,size_t*); }
namespace sim {
using namespace ref;
Bytes keyNum();
// ---------------------------------------------------------------- fibers
static const size_t STK=512<<10; static const size_t TR=1<<18;
struct Trans{ u32 n; char b[TR]; };                                       // what a task observed
struct Task{ std::string name; std::vector<std::function<void()>> ops; ucontext_t cx; uint8_t*stk=nullptr; void*fake=nullptr; bool done=false; u64 soloSteps=0; Trans*solo,*inter; };
static std::vector<Task>*T_; static int cur=-1; static ucontext_t mainCx; static void*mainFake; static const void*mainStk; static size_t mainLen; static Trans*out_; static bool sched_=false; static int preempts=0,left_=0;
static void say(const std::string&s){ Host h; Trans*t= sched_? (*T_)[cur].inter : out_; size_t n=std::min(s.size(),TR-2-t->n); memcpy(t->b+t->n,s.data(),n); t->n+=n; t->b[t->n++]='\n'; if(t->n>TR-1000) harness("transcript too long"); }
static void toMain(){ Task&t=(*T_)[cur]; __sanitizer_start_switch_fiber(&t.fake,mainStk,mainLen); swapcontext(&t.cx,&mainCx); __sanitizer_finish_switch_fiber(t.fake,nullptr,nullptr); }
static void onPreempt(){ preempts++; count("sched.preemption"); toMain(); }
static void yield(){ Host h; if(sched_&&left_>0&&chance(1,2)){ count("sched.yield"); toMain(); } } // a task also gives way between its calls
static void entry(){ __sanitizer_finish_switch_fiber(nullptr,&mainStk,&mainLen); { Task&t=(*T_)[cur]; for(auto&f:t.ops) f(); t.done=true; } __sanitizer_start_switch_fiber(nullptr,mainStk,mainLen); swapcontext(&(*T_)[cur].cx,&mainCx); }
static void runFor(int i,u64 steps){ Task&t=(*T_)[i]; cur=i; g_step_hook=onPreempt; g_step_hook_at= steps? g_steps+steps : ~0ull; __sanitizer_start_switch_fiber(&mainFake,t.stk,STK); swapcontext(&mainCx,&t.cx); __sanitizer_finish_switch_fiber(mainFake,nullptr,nullptr); g_step_hook_at=~0ull; }

// ---------------------------------------------------------------- work, planned before it runs
static std::vector<size_t> cuts(size_t n,bool fine){ std::vector<size_t> v; int mode=fine? choose(5):0; size_t done=0; while(done<n){ size_t c=std::min(n-done,chunkSize(mode,n-done)); if(v.size()>200) c=n-done; v.push_back(c); done+=c; } if(v.empty()) v.push_back(0); return v; }
typedef std::function<void()> Op;
static std::string secS(const ECPoint&p){ return hx(p.point,64); }
static int pinned_=-1; // several tasks on the same kind of object
static Op opParse(){ const Kind*k=&kinds[pinned_>=0? pinned_ : pickKind()]; GenOpt g; g.big=false; auto m=std::make_shared<Msg>(k->gen(g)); auto v=cuts(m->enc.size(),true); return [=]{ Obj*o; { Dev d; o=k->make(); } SimIn in; size_t at=0; for(size_t c:v){ in.push(Bytes(m->enc.begin()+at,m->enc.begin()+at+c)); at+=c; size_t r; { Dev d; r=in.parse(o->s()); } say("parsed "+std::to_string(r)+" "+stName(o->s()->getStatus())); yield(); } say(o->dump()); { Dev d; delete o; } }; }
static Op opSerialize(){ const Kind*k=&kinds[pinned_>=0? pinned_ : pickKind()]; GenOpt g; g.big=false; auto m=std::make_shared<Msg>(k->gen(g)); auto v=cuts(m->emit.size(),true); int hex=choose(3); return [=]{ Obj*o; { Dev d; o=k->make(); } SimIn in; in.push(m->enc); { Dev d; in.parse(o->s()); } if(hex==2){ std::string s; { Dev d; s=o->s()->toString(); } say(s); } else { SimOut so; for(size_t c:v){ so.room+=c; size_t r,b=so.got.size(); { Dev d; r=so.serialize(o->s(),b); } say("emitted "+std::to_string(r)); yield(); } say(hx(so.got)); } size_t l; { Dev d; l=o->s()->length(); } say(std::to_string(l)); { Dev d; delete o; } }; }
static Op opHash(){ int alg=choose(8); auto m=std::make_shared<Bytes>(blob(choose(400))); auto k=std::make_shared<Bytes>(blob(choose(160))); auto v=cuts(m->size(),true); return [=]{ SHA256 a; SHA512 b; RMD160 r; Hash160 h1; DoubleSha ds; TaggedHash*tg; uint8_t o[64]={0}; { Dev d; tg=new TaggedHash("C06"); switch(alg){ case 0: a.begin(); break; case 1: b.begin(); break; case 2: r.begin(); break; case 3: h1.begin(); break; case 4: ds.begin(); break; case 5: break; case 6: a.beginHMAC(k->data(),k->size()); break; default: b.beginHMAC(k->data(),k->size()); } } HashAlgorithm*x= alg==0||alg==6? (HashAlgorithm*)&a : alg==1||alg==7? (HashAlgorithm*)&b : alg==2? (HashAlgorithm*)&r : alg==3? (HashAlgorithm*)&h1 : alg==4? (HashAlgorithm*)&ds : (HashAlgorithm*)tg; size_t at=0; for(size_t c:v){ { Dev d; x->write(m->data()+at,c); } at+=c; yield(); } { Dev d; if(alg==6) a.endHMAC(o); else if(alg==7) b.endHMAC(o); else x->end(o); delete tg; } say(hx(o,64)); }; }
static Op opDerive(){ HD h=genHD(); h.depth%=4; std::vector<u32> p; for(int n=1+choose(3);n>0;n--) p.push_back(choose(2)? word32() : 0x80000000u+oneOf({44,49,84,0,1})); bool pub=chance(1,3); std::string ps="m/"; for(size_t i=0;i<p.size();i++) ps+=(i?"/":"")+std::to_string(p[i]&0x7fffffff)+(p[i]>=0x80000000u?"h":""); bool byStr=chance(1,2); return [=]{ std::string s; { Dev d; HDPrivateKey k(h.key.data(),h.cc.data(),h.depth,h.pfp.data(),h.child); if(pub){ HDPublicKey q=k.xpub(); for(u32 i:p) q=q.child(i&0x7fffffff); s=q.xpub()+" "+q.address()+" "+q.fingerprint(); } else { HDPrivateKey c; if(byStr) c=k.derive(ps.c_str()); else { uint32_t a[4]; for(size_t i=0;i<p.size();i++) a[i]=p[i]; c=k.derive(a,p.size()); } s=c.xprv()+" "+c.address()+" "+c.fingerprint(); } Host hh; say(s); } }; }
static Op opSign(){ Bytes k=keyNum(),h=sha256(blob(4)); return [=]{ uint8_t b[65]; bool ok; { Dev d; PrivateKey pk(k.data()); Signature s=pk.sign(h.data()); s.bin(b,65); ok=pk.publicKey().verify(s,h.data()); } say(hx(b,65)+(ok?" verified":" NOT verified")); uint8_t der[80]; size_t l; { Dev d; Signature s; s.fromBin(b,64); l=s.der(der,80); } say(hx(der,std::min(l,(size_t)80))); }; }
static Op opSchnorr(){ Bytes k=keyNum(),h=sha256(blob(4)); return [=]{ Bytes a(64); bool ok; { Dev d; PrivateKey pk(k.data()); SchnorrSignature s=pk.schnorr_sign(h.data()); s.serialize(a.data(),64,(size_t)0,RAW); ok=pk.publicKey().schnorr_verify(s,h.data()); } say(hx(a)+(ok?" verified":" NOT verified")); }; }
static Op opEcdh(){ Bytes k=keyNum(),q=pubOf(keyNum()); bool hs=chance(1,2); return [=]{ uint8_t o[32]; { Dev d; PrivateKey pk(k.data()); PublicKey p(q.data()); pk.ecdh(p,o,hs); } say(hx(o,32)); }; }
static Op opWif(){ Bytes k=keyNum(); bool c=chance(1,2); bool tb=chance(1,2); return [=]{ std::string w; { Dev d; PrivateKey pk(k.data(),c,tb?&Testnet:&Mainnet); w=pk.wif(); } say(w); yield(); uint8_t s[32]; int r; PublicKey p; { Dev d; PrivateKey pk; r=pk.fromWIF(w.c_str()); pk.getSecret(s); p=pk.publicKey(); } say(std::to_string(r)+" "+hx(s,32)+" "+secS(p)); }; }
static Op opXprv(){ HD h=genHD(); int v=choose(10); std::string s=base58check(hdRaw(h,PRVV[v])),q=base58check(hdPubRaw(h,PUBV[v])); return [=]{ std::string a,b; bool ok; { Dev d; HDPrivateKey k(s.c_str()); ok=k.isValid(); a=k.xprv(); HDPublicKey x=k.xpub(); b=x.xpub(); } say(std::to_string(ok)+" "+a+" "+b); yield(); { Dev d; HDPublicKey x(q.c_str()); a=x.xpub(); b=x.fingerprint(); } say(a+" "+b); }; }
static Op opMnemonic(){ std::string m=mnemonic(blob(oneOf({16,24,32}))); if(chance(1,3)){ size_t p=m.rfind(' '); m=m.substr(0,p+1)+word(choose(2048)); } return [=]{ bool ok; uint8_t e[33]; memset(e,0,33); size_t n; { Dev d; ok=checkMnemonic(m); n=mnemonicToEntropy(m.c_str(),m.size(),e,32); } say(std::to_string(ok)+" "+std::to_string(n)+" "+hx(e,33)); }; }
static Op opPsbt(){ // one own p2wpkh or p2pkh input
  Bytes seed=blob(64); HD root=master(seed); std::vector<u32> path={0x80000000u+84,0x80000000u,choose(3)}; HD c=ref::derive(root,path); Bytes pub=pubOf(c.key); bool sw=chance(1,2); MTx t; t.ver=2; t.lock=0; MPsbt p; size_t ni=1+choose(2); for(size_t i=0;i<ni;i++){ MIn in; in.seq=0xffffffff-i; Bytes spk= sw? p2wpkh(hash160(pub)) : p2pkh(hash160(pub)); std::vector<KV> kv; if(sw){ in.hash=blob(32); in.idx=i; kv.push_back({{1},ser(MOut{5000+i,spk})}); } else { MTx pv; pv.ver=1; pv.lock=0; MIn pi; pi.hash=blob(32); pi.idx=0; pi.seq=1; pv.in.push_back(pi); pv.out.push_back({7000,spk}); in.hash=txhash(pv); in.idx=0; kv.push_back({{0},ser(pv)}); } Bytes k={6}; app(k,pub); Bytes v=fingerprint(root); for(u32 x:path) put(v,x,4); kv.push_back({k,v}); p.in.push_back(kv); t.in.push_back(in); } t.out.push_back({1000,p2wpkh(blob(20))}); p.out.push_back({}); p.tx=t; Bytes enc=ser(p); auto v=cuts(enc.size(),chance(1,3));
  return [=]{ PSBT*q; { Dev d; q=new PSBT; } SimIn in; size_t at=0; for(size_t cc:v){ in.push(Bytes(enc.begin()+at,enc.begin()+at+cc)); at+=cc; { Dev d; in.parse(q); } yield(); } uint8_t n; u64 fee; { Dev d; HDPrivateKey k; k.fromSeed(seed.data(),64); n=q->sign(k); fee=q->fee(); } SimOut so; so.room=100000; { Dev d; so.serialize(q,0); } say(std::to_string(n)+" "+std::to_string(fee)+" "+hx(so.got)); { Dev d; delete q; } }; }
static Op opElectrum(){ Bytes seed=blob(64); HD root=master(seed); EModel e; e.segwit=chance(1,2); e.tx.ver=2; e.tx.lock=choose(500000); size_t ni=1+choose(2); for(size_t i=0;i<ni;i++){ MIn x; x.hash=blob(32); x.idx=i; x.seq=0xfffffffe; e.tx.in.push_back(x); MEIn m; m.xpub78=hdPubRaw(root,PUBV[e.segwit?1+choose(2):0]); m.d[0]=choose(2); m.d[1]=choose(9); m.amt=e.segwit?9999:0; e.in.push_back(m); } e.tx.out.push_back({77,p2pkh(blob(20))}); Bytes enc=electrumEnc(e); auto v=cuts(enc.size(),chance(1,3)); return [=]{ ElectrumTx*q; { Dev d; q=new ElectrumTx; } SimIn in; size_t at=0; for(size_t cc:v){ in.push(Bytes(enc.begin()+at,enc.begin()+at+cc)); at+=cc; { Dev d; in.parse(q); } yield(); } uint8_t n; { Dev d; HDPrivateKey k; k.fromSeed(seed.data(),64); n=q->sign(k); } SimOut so; so.room=100000; { Dev d; so.serialize(q,0); } say(std::to_string(n)+" "+hx(so.got)); { Dev d; delete q; } }; }
static Op opText(){ Bytes k=keyNum(); Bytes b=blob(1+choose(80)); std::string desc="wpkh(["+hx(blob(4))+"/84h/0h/0h]"+std::to_string(choose(1000))+"/0/*)"; bool tb=chance(1,2); int what=choose(3); return [=]{ const Network*n=tb?&Testnet:&Mainnet; std::string s; switch(what){ case 0: { Dev d; PrivateKey pk(k.data(),true,n); s=pk.legacyAddress()+" "+pk.segwitAddress()+" "+pk.nestedSegwitAddress(); Host h; say(s); break; } case 1: { { Dev d; s=descriptorChecksum(desc); } say(s); break; } default: { std::string a,c; { Dev d; a=toBase58(b.data(),b.size()); c=toBase58Check(b.data(),b.size()); } say(a+" "+c); yield(); uint8_t o[128]; memset(o,0,128); size_t l; { Dev d; l=fromBase58Check(c.c_str(),c.size(),o,128); } say(std::to_string(l)+" "+hx(o,128)); std::string x; { Dev d; x=toBase64(b.data(),b.size(),0)+" "+toHex(b.data(),b.size()); } say(x); } } { std::string a; { Dev d; PrivateKey pk(k.data(),true,n); a=pk.segwitAddress(); Script sc(a); a=sc.address(n)+" "+sc.toString(); Host h; say(a); } } }; }
static Op opTx(){ GenOpt g; g.big=false; auto t=std::make_shared<MTx>(genTx(g,2)); Bytes code=p2pkh(blob(20)); u64 amt=word64(); size_t idx=choose(t->in.size()); return [=]{ Bytes e=ser(*t); Tx*x; { Dev d; x=new Tx; } SimIn in; in.push(e); { Dev d; in.parse(x); } uint8_t a[32],b[32]; std::string id; { Dev d; Script sc; sc.push(code.data(),code.size()); x->sigHash(a,idx,sc); x->sigHashSegwit(b,idx,sc,amt); id=x->txid()+" "+x->wtxid(); } say(hx(a,32)+" "+hx(b,32)+" "+id); { Dev d; delete x; } }; }
static Op opStretch(){ std::string m=mnemonic(blob(16)),p="pw"; return [=]{ uint8_t s[32],c[32]; { Dev d; HDPrivateKey k; k.fromMnemonic(m.c_str(),m.size(),p.c_str(),p.size()); k.getSecret(s); memcpy(c,k.chainCode,32); } say(hx(s,32)+" "+hx(c,32)); }; }
static Op opScripts(){ auto ks=std::make_shared<std::vector<Bytes>>(); int n=2+choose(3); for(int i=0;i<n;i++) ks->push_back(keyNum()); int m=1+choose(n); bool tb=chance(1,2); return [=]{ const Network*nw=tb?&Testnet:&Mainnet; std::string o; { Dev d; PublicKey pk[5]; for(int i=0;i<n;i++) pk[i]=PrivateKey((*ks)[i].data()).publicKey(); Script a=multi(m,pk,n),b=sortedmulti(m,pk,n); Script w=wsh(b),h=sh(a),nest=sh(w); o=a.toString()+" "+b.toString()+" "+w.address(nw)+" "+h.address(nw)+" "+nest.address(nw); static const ScriptType ty[]={P2PKH,P2WPKH,P2SH_P2WPKH}; for(int i=0;i<3;i++){ Script s(pk[0],ty[i]); o+=" "+s.toString()+" "+s.address(nw); Script c(s.address(nw)); o+=" "+c.toString(); } TxOut t(5,w.address(nw).c_str()); o+=" "+t.toString(); Host hh; say(o); } }; }
static Op opByHand(){ Bytes k=keyNum(),h0=blob(32),h1=blob(32); u64 amt=word64(); Bytes dst=blob(20); u32 lock=word32(); int ty=choose(3),byText=choose(3); std::string i0=hex(h0),i1=hex(h1); return [=]{ std::string o; Tx*t; { Dev d; t=new Tx; t->version=2; t->locktime=lock; if(byText==0){ TxIn a(h0.data(),1),b(h1.data(),7); t->addInput(a); t->addInput(b); } else { Script sc((uint8_t*)"\x51\x52",2); TxIn a(i0.c_str(),1),b(i1.c_str(),7,sc,9); t->addInput(byText==1?a:b); t->addInput(byText==1?b:a); } } yield(); { Dev d; Script sp; sp.push((uint8_t)0); sp.push((uint8_t)20); sp.push(dst.data(),20); t->addOutput(TxOut(amt/2,sp)); PrivateKey pk(k.data()); Signature s0=t->signInput(0,pk); Host hh; say("one"); } yield(); { Dev d; PrivateKey pk(k.data()); Signature s1= ty==0? t->signInput(1,pk) : t->signSegwitInput(1,pk,amt, ty==1?P2WPKH:P2SH_P2WPKH); o=s1.toString()+" "+t->toString()+" "+t->txid(); delete t; Host hh; say(o); } }; }
static Op opCurve(){ Bytes a=keyNum(),b=keyNum(); u32 w=word32(); return [=]{ std::string o; { Dev d; ECScalar x(a.data(),32),y(b.data(),32); ECPoint p=x*GeneratorPoint,q=y*GeneratorPoint; ECPoint s=p+q,e=p-q,n=-p; ECScalar u=x+y,v=x-y,m=x*y,f=x/y; ECScalar z=x+w; bool lt=p<q; o=s.toString()+" "+e.toString()+" "+n.toString()+" "+u.toString()+v.toString()+m.toString()+f.toString()+z.toString()+(lt?"<":">="); ECPoint r(s.toString().c_str()); o+=" "+r.toString(); Host hh; say(o); } }; }
static Op opOneShot(){ Bytes m=blob(choose(200)),k=blob(choose(90)); return [=]{ uint8_t a[32],b[64],c[20],d1[32],e[20],f[32],g[64],t[32]; { Dev d; sha256(m.data(),m.size(),a); sha512(m.data(),m.size(),b); rmd160(m.data(),m.size(),c); doubleSha(m.data(),m.size(),d1); hash160(m.data(),m.size(),e); sha256Hmac(k.data(),k.size(),m.data(),m.size(),f); sha512Hmac(k.data(),k.size(),m.data(),m.size(),g); tagged_hash("C06/one",m.data(),m.size(),t); } say(hx(a,32)+hx(b,64)+hx(c,20)+hx(d1,32)+hx(e,20)+hx(f,32)+hx(g,64)+hx(t,32)); std::string o; uint8_t back[256]; size_t n[3]; memset(back,0,256); { Dev d; std::string x=toBase43(m.data(),m.size()),y=toBase64(m.data(),m.size(),BASE64_URLSAFE),z=toHex(m.data(),m.size()); n[0]=fromBase43(x.c_str(),x.size(),back,256); n[1]=fromBase64(y.c_str(),y.size(),back,256,BASE64_URLSAFE); n[2]=fromHex(z.c_str(),z.size(),back,256); o=x+" "+y+" "+z; Host hh; say(o); } say(std::to_string(n[0])+" "+std::to_string(n[1])+" "+std::to_string(n[2])+" "+hx(back,256)); }; }
static const char*opName[]={"parse","serialize","hash","derive","sign","schnorr","ecdh","wif","xprv","mnemonic","psbt","electrum","text","tx","stretch","scripts","by_hand","curve","one_shot"};
static Op make(int k){ switch(k){ case 0: return opParse(); case 1: return opSerialize(); case 2: return opHash(); case 3: return opDerive(); case 4: return opSign(); case 5: return opSchnorr(); case 6: return opEcdh(); case 7: return opWif(); case 8: return opXprv(); case 9: return opMnemonic(); case 10: return opPsbt(); case 11: return opElectrum(); case 12: return opText(); case 13: return opTx(); case 15: return opScripts(); case 16: return opByHand(); case 17: return opCurve(); case 18: return opOneShot(); default: return opStretch(); } }
static int pickOp(){ static const uint8_t w[]={0,0,1,1,2,2,3,3,4,4,5,5,6,7,7,8,8,9,10,10,11,11,12,12,13,13,15,15,16,17,18,18}; return chance(1,60)? 14 : w[choose(sizeof w)]; }
static void c06(){ int n=2+choose(3); std::vector<Task> ts(n); T_=&ts; bool same=chance(1,2); int k0=pickOp(); pinned_= same&&k0<=1&&choose(3)? pickKind() : -1; rngPlan(false);
  for(auto&t:ts){ int m=1+choose(same?2:3); for(int i=0;i<m;i++){ int k= same? k0 : pickOp(); count((std::string("kind.task_")+opName[k]).c_str()); t.ops.push_back(make(k)); t.name+=std::string(i?"+":"")+opName[k]; } t.solo=(Trans*)shared(sizeof(Trans)); t.inter=(Trans*)shared(sizeof(Trans)); }
  static const u32 MW=2048; struct W{ u64 n; u64 at[MW]; }; W*ws=(W*)shared(sizeof(W)*n); std::vector<std::vector<u64>> wr(n); bool anyW=false; // where a task, alone, writes the library's statics
  u64*steps=(u64*)shared(4096); sched_=false; for(int i=0;i<n;i++){ out_=ts[i].solo; image([&]{ budget(4000000000ull); watchStatics(ws[i].at,MW); u64 s=g_steps; for(auto&f:ts[i].ops) f(); steps[i]=g_steps-s; ws[i].n=staticsSeen(); checkNoLeak("task run alone"); }); ts[i].soloSteps=steps[i]; wr[i].assign(ws[i].at,ws[i].at+ws[i].n); if(ws[i].n){ anyW=true; count("probe.static_writes",ws[i].n); } L("task %d: %s, alone %llu steps",i,ts[i].name.c_str(),(unsigned long long)steps[i]); }
  u64 total=0; for(int i=0;i<n;i++){ total+=steps[i]; ts[i].stk=(uint8_t*)mmap(nullptr,STK,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); if(ts[i].stk==MAP_FAILED) harness("stack"); getcontext(&ts[i].cx); ts[i].cx.uc_stack.ss_sp=ts[i].stk; ts[i].cx.uc_stack.ss_size=STK; ts[i].cx.uc_link=nullptr; makecontext(&ts[i].cx,entry,0); }
  sched_=true; int alive=n; left_=600; budget(total*3+4000000000ull); int mode=choose(5); if(mode==4&&!anyW) mode=3; if(anyW&&chance(1,2)) mode=4; std::vector<u64> ran(n); u64 mean=oneOf({30,300,3000,30000,300000}); int few=1+choose(6); std::vector<u64> pts; if(mode==0) for(int i=0;i<few;i++) pts.push_back(1+(u64)(choose(1u<<30)/(double)(1u<<30)*total)); std::sort(pts.begin(),pts.end()); size_t pi=0; int last=-1; u64 base=g_steps;
  while(alive){ std::vector<int> run; for(int i=0;i<n;i++) if(!ts[i].done) run.push_back(i); int i; if(left_>0&&run.size()>1){ i=run[choose(run.size())]; if(i==last&&mode!=1){ i=run[(std::find(run.begin(),run.end(),i)-run.begin()+1)%run.size()]; } } else i=run[0];
    u64 slice=0; if(left_>0){ left_--; if(mode==0){ while(pi<pts.size()&&pts[pi]<=g_steps-base) pi++; slice= pi<pts.size()? pts[pi]-(g_steps-base) : 0; } else { u32 r=choose(1u<<16); slice=1+(u64)(mean*2.0*r/65536.0); if(mode>=3&&ts[i].soloSteps) slice=1+(u64)(ts[i].soloSteps*(double)r/65536.0); } }
    if(mode==4&&left_>0){ // preempt soon after a write to a static: its value is then in use
      auto b=std::upper_bound(wr[i].begin(),wr[i].end(),ran[i]); size_t m=wr[i].end()-b; if(m&&chance(3,4)){ size_t j=(b-wr[i].begin())+choose(m); if(chance(1,2)) while(j+1<wr[i].size()&&wr[i][j+1]-wr[i][j]<=3) j++; slice=wr[i][j]+1-ran[i]; if(chance(1,3)) slice+=choose(40); count("sched.directed"); } else if(chance(1,2)) slice=0; }
    u64 s0=g_steps; runFor(i,slice); ran[i]+=g_steps-s0; last=i; L("task %d ran %llu steps%s",i,(unsigned long long)(g_steps-s0),ts[i].done?", finished":""); if(ts[i].done) alive--; }
  if(preempts) nontrivial(); sched_=false; for(int i=0;i<n;i++){ std::string a(ts[i].solo->b,ts[i].solo->n),b(ts[i].inter->b,ts[i].inter->n); CHECK(a==b,"interference","task %d (%s) saw something else than alone: %s",i,ts[i].name.c_str(),diff(a,b).c_str()); } checkNoLeak("after all tasks"); }
static Reg r06("C06",c06);
}
