// C19 (transactions built and signed by hand), C16 (memory runs out while building or signing).
#include "world.h"
#include <string.h>
#include <algorithm>
#include <new>
namespace sim {
using namespace ref;
Bytes keyNum();
struct BIn{ u32 sh=1;  int ty; Bytes key,pub; bool comp; Bytes redeem; u64 amt; bool fresh=false; }; // fresh: the signature present is for the current content
static const char*btn[]={"p2pkh","p2pkh_explicit","p2sh_script","p2wpkh","p2wpkh_explicit","p2sh_p2wpkh","p2wsh_script","p2sh_p2wsh_script"};
static Bytes num(u64 v){ Bytes b; while(v){ b.push_back(v&255); v>>=8; } if(b.size()&&(b.back()&0x80)) b.push_back(0); return b; }
Bytes pushOp(const Bytes&d){ Bytes o; size_t n=d.size(); if(n<=75) o={(uint8_t)n}; else if(n<=255) o={0x4c,(uint8_t)n}; else o={0x4d,(uint8_t)n,(uint8_t)(n>>8)}; app(o,d); return o; }
static Bytes blob1(size_t n){ Bytes b(n); for(size_t i=0;i<n;i++) b[i]=(uint8_t)(i*7+3); return b; }
static Bytes singleKey(const Bytes&pub,size_t maxPad){ Bytes s; switch(choose(4)){ case 0: break; case 1: s=pushOp(num(500000+choose(1u<<24))); s.push_back(0xb1); s.push_back(0x75); break; case 2: s=pushOp(num(1+choose(65535))); s.push_back(0xb2); s.push_back(0x75); break;
    default: { size_t n=oneOf({1,30,36,37,38,40,70,75,76,100,180,216,217,218,219,220,255,256,400,2000,3000}); if(n>maxPad) n=choose(maxPad+1); s=pushOp(blob(n)); s.push_back(0x75); } }
  bool plain=choose(2); if(chance(1,4)){ size_t tail= plain? pub.size()+2 : 25, goal=oneOf({74,75,76,77,78,254,255,256,257,519,520}); for(size_t n=1;n<=516;n++){ Bytes q=pushOp(blob1(n)); if(q.size()+1+tail==goal){ s=q; s.push_back(0x75); break; } } }
  if(plain){ app(s,pushOp(pub)); s.push_back(0xac); } else { app(s,p2pkh(hash160(pub))); if(s.size()==25) { s.insert(s.begin(),0x51); s.insert(s.begin()+1,0x75); } } return s; }
static BIn genB(){ BIn b; b.ty=choose(8); b.key=keyNum(); b.comp= b.ty<=2? !chance(1,4) : true; b.pub=pubOf(b.key,b.comp); b.amt=word64(); if(b.ty==2) b.redeem=singleKey(b.pub,516-(b.pub.size()+2)); if(b.ty>=6) b.redeem=singleKey(b.pub,3000); count((std::string("kind.")+btn[b.ty]).c_str()); return b; }
static Bytes hashOf(const MTx&m,size_t i,const BIn&b){ Bytes pk=p2pkh(hash160(b.pub)); switch(b.ty){ case 0: case 1: return sighash(m,i,pk,b.sh); case 2: return sighash(m,i,b.redeem,b.sh); case 3: case 4: case 5: return sighash143(m,i,pk,b.amt,b.sh); default: return sighash143(m,i,b.redeem,b.amt,b.sh); } }
static void wantSigned(const BIn&b,const Bytes&sig,Bytes&script,std::vector<Bytes>&wit){ Bytes sd=sig; sd.push_back((uint8_t)b.sh); wit.clear(); script.clear(); if(b.ty<=2){ app(script,pushOp(sd)); app(script,pushOp(b.pub)); if(b.ty==2) app(script,pushOp(b.redeem)); return; } wit={sd,b.pub}; if(b.ty>=6) wit.push_back(b.redeem); if(b.ty==5) script=pushOp(p2wpkh(hash160(b.pub))); if(b.ty==7) script=pushOp(p2wsh(b.redeem)); }
static MIn liveIn(const TxIn&x){ MIn m; m.hash=B(x.hash,32); m.idx=x.outputIndex; m.seq=x.sequence; m.script=B(x.scriptSig.scriptArray,x.scriptSig.scriptLen); Bytes w(x.witness.length()+4); size_t n=x.witness.serialize(w.data(),w.size(),(size_t)0,RAW); w.resize(std::min(n,w.size())); size_t p=0; auto vi=[&]{ u64 v=p<w.size()?w[p++]:0; int k= v<253?0: v==253?2: v==254?4:8; if(k){ v=0; for(int i=0;i<k&&p<w.size();i++) v|=(u64)w[p++]<<(8*i); } return v; }; u64 c=vi(); bool bad=false; for(u64 i=0;i<c&&!bad;i++){ u64 l=vi(); if(p+l>w.size()||(!l&&p>w.size())||(l==0&&p>w.size())) bad=true; else { m.wit.push_back(Bytes(w.begin()+p,w.begin()+p+l)); p+=l; } } if(bad||p!=w.size()||m.wit.size()!=c||(c&&w.size()<2)) m.wit={Bytes{'?'},w}; return m; }
static Signature callSign(Tx&t,size_t i,const PrivateKey&pk,const BIn&b,const Script&rs,int how){ SigHashType st=(SigHashType)b.sh; if(b.sh!=1) switch(b.ty){ case 1: case 2: return t.signInput(i,pk,rs,st); case 4: return t.signSegwitInput(i,pk,rs,b.amt,P2WPKH,st); case 5: return t.signSegwitInput(i,pk,rs,b.amt,P2SH_P2WPKH,st); case 6: return t.signSegwitInput(i,pk,rs,b.amt,P2WSH,st); default: return t.signSegwitInput(i,pk,rs,b.amt,P2SH_P2WSH,st); } switch(b.ty){ case 0: return t.signInput(i,pk); case 1: return how? t.signInput(i,pk,rs,SIGHASH_ALL) : t.signInput(i,pk,rs); case 2: return how? t.signInput(i,pk,rs) : t.signInput(i,pk,rs,SIGHASH_ALL); case 3: return how? t.signSegwitInput(i,pk,b.amt) : t.signSegwitInput(i,pk,b.amt,P2WPKH); case 4: return t.signSegwitInput(i,pk,rs,b.amt,P2WPKH); case 5: return how? t.signSegwitInput(i,pk,b.amt,P2SH_P2WPKH) : t.signSegwitInput(i,pk,rs,b.amt,P2SH_P2WPKH); case 6: return how? t.signSegwitInput(i,pk,rs,b.amt) : t.signSegwitInput(i,pk,rs,b.amt,P2WSH,SIGHASH_ALL); default: return t.signSegwitInput(i,pk,rs,b.amt,P2SH_P2WSH); } }
static Script redeemOf(const BIn&b){ switch(b.ty){ case 1: return Script(PublicKey(b.pub.data()),P2PKH); case 4: case 5: return Script(PublicKey(b.pub.data()),P2WPKH); case 0: case 3: return Script(); default: return Script(b.redeem.data(),b.redeem.size()); } }
static void checkSig(const Bytes&r,const Bytes&s,const Bytes&h,const BIn&b,size_t i){ static const Bytes half=unhex("7fffffffffffffffffffffffffffffff5d576e7357a4501ddfe92f46681b20a0"); Point P; if(!parseSec(b.pub,P)) harness("own key"); CHECK(verify(P,h,r,s),"bad-signature","input %zu (%s): the signature is not valid for the current content",i,btn[b.ty]); CHECK(s<=half,"bad-signature","input %zu: high S",i); }
static void same(const Tx&t,const MTx&m,const char*when){ std::string w=dumpM(m),g=dumpL(t); CHECK(w==g,"content","%s: the transaction is not what was built: %s",when,diff(w,g).c_str()); }
static void signOne(Tx&t,MTx&m,std::vector<BIn>&b,size_t i){ BIn&x=b[i]; bool viaCopy=chance(1,6); Signature g; int how=choose(2); x.sh=1; if(x.ty!=0&&x.ty!=3&&chance(1,4)){ x.sh= i<m.out.size()&&choose(3)?3:2; nontrivial(); count(x.sh==3?"kind.sighash_single":"kind.sighash_none"); } L("sign input %zu (%s%s%s)",i,btn[x.ty],viaCopy?", on a copy":"",x.sh==1?"":x.sh==2?", SIGHASH_NONE":", SIGHASH_SINGLE"); budget(2000000000ull); { Dev d; PrivateKey pk(x.key.data(),x.comp,choose(2)?&Testnet:&Mainnet); Script rs=redeemOf(x); if(viaCopy){ Tx c=t; g=callSign(c,i,pk,x,rs,how); t=c; } else g=callSign(t,i,pk,x,rs,how); }
  uint8_t rs[64]; g.bin(rs,64); Bytes r=B(rs,32),s=B(rs+32,32); checkSig(r,s,hashOf(m,i,x),x,i); wantSigned(x,der(r,s),m.in[i].script,m.in[i].wit); x.fresh=true; count("probe.signature_verified"); }
static MIn newIn(){ MIn n; n.hash=blob(32); n.idx=choose(4)?choose(5):word32(); n.seq=choose(2)?0xffffffff:word32(); if(chance(1,6)) n.script=blob(oneOf({1,30,107,300})); return n; }
static void mkIn(TxIn&x,const MIn&m){ Bytes id(m.hash.rbegin(),m.hash.rend()); Script sc(m.script.data(),m.script.size()); x= m.script.size()? TxIn(id.data(),m.idx,sc,m.seq) : TxIn(id.data(),m.idx,m.seq); }
static MOut newOut(){ GenOpt g; g.big=chance(1,8); MOut o=genOut(g); if(o.spk.size()>9000) o.spk.resize(300); return o; }
static void c19(){ Tx*t; { Dev d; t=new Tx; } MTx m; m.ver=1; m.lock=0; std::vector<BIn> b; rngPlan(chance(1,4)); auto stale=[&](size_t){ for(auto&x:b) x.fresh=false; }; size_t maxIn=12,maxOut=12; bool crowd=chance(1,40);
  auto addIn=[&]{ if(m.in.size()>maxIn) return; MIn n=newIn(); size_t r; { Dev d; TxIn x; mkIn(x,n); r=t->addInput(x); } m.in.push_back(n); b.push_back(genB()); stale(0); L("add input %zu (%s)",m.in.size()-1,btn[b.back().ty]); CHECK(r==m.in.size(),"count","addInput reports %zu inputs, there are %zu",r,m.in.size()); };
  auto addOut=[&]{ if(m.out.size()>maxOut) return; MOut o=newOut(); if(maxOut>40&&o.spk.size()>40) o.spk.resize(choose(40)); size_t r; { Dev d; Script sc(o.spk.data(),o.spk.size()); r=t->addOutput(choose(2)?TxOut(o.amt,sc):TxOut(sc,o.amt)); } m.out.push_back(o); stale(0); L("add output %zu",m.out.size()-1); CHECK(r==m.out.size(),"count","addOutput reports %zu outputs, there are %zu",r,m.out.size()); };
  addIn(); for(int n=choose(3);n>0;n--) addOut(); if(crowd){ size_t n=oneOf({16,17,20,33,66,130,251,252,253,254}); if(chance(1,3)){ maxIn=std::min(n,(size_t)254); for(size_t i=0;i<n;i++) addIn(); } else { maxOut=std::min(n,(size_t)254); for(size_t i=0;i<n;i++) addOut(); if(choose(2)){ maxIn=20; for(size_t k=choose(20);k>0;k--) addIn(); } } count("kind.crowded_tx"); } int steps=2+choose(12); for(int k=0;k<steps;k++){ switch(choose(10)){ case 0: addIn(); break; case 1: addOut(); break;
      case 2: { nontrivial(); stale(0); switch(choose(5)){ case 0: m.ver=word32(); t->version=m.ver; break; case 1: m.lock=word32(); t->locktime=m.lock; break; case 2: { size_t i=choose(m.in.size()); m.in[i].seq=word32(); t->txIns[i].sequence=m.in[i].seq; break; } case 4: { size_t i=choose(m.in.size()); b[i]=genB(); count("sched.other_coin"); break; } default: if(m.out.size()){ size_t i=choose(m.out.size()); m.out[i].amt=word64(); t->txOuts[i].amount=m.out[i].amt; } } L("change a field"); count("sched.edit_after_sign"); break; }
      case 3: { nontrivial(); L("continue on a copy"); count("sched.copy"); Dev d; Tx*c=new Tx(*t); delete t; t=c; break; }
      case 4: { nontrivial(); L("send and receive"); count("sched.transfer"); Bytes e=collect(t); CHECK(e==ser(m),"content","serialized transaction: %s",diff(hx(ser(m)),hx(e)).c_str()); if(m.in.size()>252||m.out.size()>252) break; Tx*c; { Dev d; c=new Tx; } deliver(c,e); { Dev d; delete t; } t=c; break; }
      default: { size_t i=choose(m.in.size()); if(i) nontrivial(); if(b[i].fresh) count("sched.resign"); signOne(*t,m,b,i); } }
    same(*t,m,"after a step"); }
  // finish in any order
  std::vector<size_t> order; for(size_t i=0;i<m.in.size();i++) order.push_back(i); for(size_t i=order.size();i>1;i--) std::swap(order[i-1],order[choose(i)]); if(order.size()>22) order.resize(6); for(size_t i:order) if(!b[i].fresh||chance(1,4)){ signOne(*t,m,b,i); same(*t,m,"after signing"); }
  Bytes e=collect(t); MTx g; size_t pos=0; CHECK(parseTx(e,pos,g)&&pos==e.size(),"content","the emitted transaction does not decode"); CHECK(dumpM(g)==dumpM(m),"content","the emitted transaction is not the one built: %s",diff(dumpM(m),dumpM(g)).c_str());
  for(size_t i=0;i<g.in.size();i++){ Bytes sd; const BIn&x=b[i]; if(!x.fresh){ if(g.in.size()<=22) harness("unsigned input"); continue; } if(x.ty<=2){ CHECK(g.in[i].script.size()>1&&g.in[i].script.size()>g.in[i].script[0],"content","input %zu: no scriptSig",i); sd.assign(g.in[i].script.begin()+1,g.in[i].script.begin()+1+g.in[i].script[0]); } else { CHECK(g.in[i].wit.size()>=2,"content","input %zu: no witness",i); sd=g.in[i].wit[0]; } CHECK(sd.size()>1&&sd.back()==x.sh,"bad-signature","input %zu: no sighash type",i); sd.pop_back(); Bytes r,s; CHECK(under(sd,r,s),"bad-signature","input %zu: not strict DER",i); checkSig(r,s,hashOf(g,i,x),x,i); }
  { Dev d; delete t; } checkNoLeak("after the transaction is gone"); }
static Reg r19("C19",c19);

// ---------------------------------------------------------------- memory runs out
static u64 oomF0; void oomOn(u64 need){ g_heap=HeapPlan(); g_heap.on=true; int mode=choose(4); g_heap.failAt=g_allocs+1+choose((u32)need+1); g_heap.failLen= mode==0?1: mode==1? 1+choose(4): 1000000; if(mode==3){ g_heap.failAt=0; g_heap.failAbove=oneOf({1,8,16,22,24,30,33,34,60,72,100,110,200,500}); } oomF0=g_allocFailures; L("allocation plan: fail #%llu.. x%llu, above %zu (need %llu)",(unsigned long long)(g_heap.failAt?g_heap.failAt-g_allocs:0),(unsigned long long)g_heap.failLen,g_heap.failAbove,(unsigned long long)need); }
bool oomOff(){ bool hit=g_allocFailures>oomF0; g_heap=HeapPlan(); if(hit) nontrivial(); L(hit?"an allocation failed":"no allocation failed"); return hit; }
void oomTx(){ Tx*t; { Dev d; t=new Tx; } MTx m; m.ver=2; m.lock=choose(3); std::vector<BIn> b; size_t ni=1+choose(3),no=choose(4); { t->version=m.ver; t->locktime=m.lock; }
  for(size_t i=0;i<ni;i++){ MIn n=newIn(); b.push_back(genB()); m.in.push_back(n); Dev d; TxIn x; mkIn(x,n); t->addInput(x); } for(size_t i=0;i<no;i++){ MOut o=newOut(); m.out.push_back(o); Dev d; Script sc(o.spk.data(),o.spk.size()); t->addOutput(TxOut(o.amt,sc)); } same(*t,m,"setup"); for(size_t i=0;i<ni;i++) if(chance(1,3)) signOne(*t,m,b,i);
  int rounds=1+choose(3); for(int q=0;q<rounds;q++){ if(chance(1,3)) oomCopy(*t,"transaction"); int op=choose(4); if(op==0||op==1){ // build
      MIn n; MOut o; TxIn*xi; TxOut*xo; { Dev d; xi=new TxIn; xo=new TxOut; } if(op==0){ n=newIn(); if(choose(2)) n.script=blob(1+choose(60)); Dev d; mkIn(*xi,n); } else { o=newOut(); Dev d; Script sc(o.spk.data(),o.spk.size()); *xo=TxOut(o.amt,sc); } size_t before= op==0? m.in.size():m.out.size(); u64 need; { Dev d; Tx c=*t; u64 a=g_allocs; if(op==0) c.addInput(*xi); else c.addOutput(*xo); need=g_allocs-a; }
      L("add %s %zu",op==0?"input":"output",before); bool thrown=false; size_t r=0; oomOn(need); try{ Dev d; r= op==0? t->addInput(*xi) : t->addOutput(*xo); }catch(std::bad_alloc&){ thrown=true; count("probe.bad_alloc"); } bool hit=oomOff(); if(!hit) CHECK(!thrown&&r==before+1,"count","no allocation failed, yet the addition reports %zu of %zu",r,before+1);
      size_t now= op==0? t->inputsNumber : t->outputsNumber; CHECK(thrown? now==before : r==now,"count","%zu held, %zu reported",now,r); CHECK(now==before||now==before+1,"count","%zu before, %zu after",before,now); if(now>before){ if(op==0){ m.in.push_back(n); b.push_back(genB()); } else m.out.push_back(o); if(hit) count("probe.survived_oom"); } else count("probe.not_added"); { Dev d; delete xi; delete xo; } same(*t,m,thrown?"after an addition that ran out of memory":"after an addition"); }
    else { size_t i=choose(m.in.size()); BIn&x=b[i]; int how=choose(2); PrivateKey*pk; Script*rs; { Dev d; pk=new PrivateKey(x.key.data(),x.comp); rs=new Script(redeemOf(x)); } Bytes h=hashOf(m,i,x); u64 need; budget(2000000000ull); { Dev d; Tx c=*t; u64 a=g_allocs; callSign(c,i,*pk,x,*rs,how); need=g_allocs-a; } L("sign input %zu (%s)",i,btn[x.ty]); bool thrown=false; Signature g; oomOn(need); try{ Dev d; g=callSign(*t,i,*pk,x,*rs,how); }catch(std::bad_alloc&){ thrown=true; count("probe.bad_alloc"); } bool hit=oomOff(); { Dev d; delete pk; delete rs; }
      uint8_t a[64]; g.bin(a,64); Bytes r=B(a,32),s=B(a+32,32); bool valid=!thrown&&!(isZero(u256(a))&&isZero(u256(a+32))); if(!hit) CHECK(valid,"not-signed","no allocation failed, yet there is no signature"); MIn live=liveIn(t->txIns[i]); MIn want=m.in[i]; 
      if(valid){ checkSig(r,s,h,x,i); std::vector<Bytes> ow=want.wit; wantSigned(x,der(r,s),want.script,want.wit); if(x.ty<=2) want.wit=ow; CHECK(live.script==want.script&&live.wit==want.wit,"half-signed","input %zu (%s): a signature is returned, but the input holds script %s witness %s",i,btn[x.ty],cut(hx(live.script)).c_str(),cut(hx(serWit(live.wit))).c_str()); if(hit) count("probe.survived_oom"); m.in[i]=want; }
      else { count("probe.not_signed"); bool nested= x.ty==5||x.ty==7; Bytes ns= nested? pushOp(x.ty==5?p2wpkh(hash160(x.pub)):p2wsh(x.redeem)) : Bytes(); bool okS= live.script==m.in[i].script||live.script.empty()||live.script==ns; bool okW= live.wit==m.in[i].wit||live.wit.empty(); CHECK(okS&&okW,"half-signed","input %zu (%s): out of memory, the input is left with script %s witness %s",i,btn[x.ty],cut(hx(live.script)).c_str(),cut(hx(serWit(live.wit))).c_str()); m.in[i].script=live.script; m.in[i].wit=live.wit; }
      same(*t,m,"after signing"); } }
  // memory is back: everything can be finished
  for(size_t i=0;i<m.in.size();i++){ signOne(*t,m,b,i); same(*t,m,"signed once memory is back"); } { Dev d; delete t; } checkNoLeak("after the transaction is gone"); }
// a script that could not be built is empty, never partial or of another script
static void oomScript(){ size_t n=1+choose(5); std::vector<Bytes> pubs; for(size_t i=0;i<n;i++) pubs.push_back(pubOf(keyNum(),!chance(1,5))); int thr=1+choose(n); Bytes ms=multisig(thr,pubs); Bytes body= choose(2)? ms : singleKey(pubs[0],300); int op=choose(9); std::vector<PublicKey>*ks; Script*src; { Dev d; ks=new std::vector<PublicKey>; for(auto&p:pubs) ks->push_back(PublicKey(p.data())); src=new Script(body.data(),body.size()); } static const char*nm[]={"multi","wsh","sh","wpkh","pkh","scriptPubkey P2SH","scriptPubkey P2WSH","copy","assign"}; L("script by %s",nm[op]); count((std::string("kind.script_")+nm[op]).c_str());
  auto make=[&](Script&o){ switch(op){ case 0: o=multi(thr,ks->data(),n); break; case 1: o=wsh(*src); break; case 2: o=sh(*src); break; case 3: o=wpkh((*ks)[0]); break; case 4: o=pkh((*ks)[0]); break; case 5: o=src->scriptPubkey(P2SH); break; case 6: o=src->scriptPubkey(P2WSH); break; case 7: { Script c(*src); o=c; break; } default: o=*src; } };
  Bytes want; switch(op){ case 0: want=ms; break; case 1: case 6: want=p2wsh(body); break; case 2: case 5: want=p2sh(body); break; case 3: want=p2wpkh(hash160(pubs[0])); break; case 4: want=p2pkh(hash160(pubs[0])); break; default: want=body; }
  Script*o; u64 need; bool thrown=false; Bytes before; { Dev d; o=new Script; if(choose(2)) o->push((uint8_t)0x51); { Host h; before=B(o->scriptArray,o->scriptLen); } Script t; u64 a=g_allocs; make(t); need=g_allocs-a; } oomOn(need); try{ Dev d; make(*o); }catch(std::bad_alloc&){ thrown=true; count("probe.bad_alloc"); } bool hit=oomOff(); Bytes got=B(o->scriptArray,o->scriptLen); CHECK(got==want||(hit&&got.empty())||(hit&&thrown&&got==before),"partial-script","%s gives %s, expected %s",nm[op],cut(hx(got)).c_str(),cut(hx(want)).c_str()); CHECK(*src==Script(body.data(),body.size()),"content","the source was changed"); if(hit) count(got.empty()?"probe.not_built":"probe.survived_oom");
  { Dev d; make(*o); } CHECK(B(o->scriptArray,o->scriptLen)==want,"partial-script","%s once memory is back: %s",nm[op],cut(hx(o->scriptArray,o->scriptLen)).c_str()); { Dev d; delete o; delete src; delete ks; } checkNoLeak("after building a script"); }
void oomPsbt(); void oomElectrum();
static void c16(){ rngPlan(false); switch(choose(5)){ case 0: oomScript(); break; case 1: case 2: oomTx(); break; case 3: oomPsbt(); break; default: oomElectrum(); } }
static Reg r16("C16",c16);
}
