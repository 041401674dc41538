#include "world.h"
#include <string.h>
#include <algorithm>
namespace sim {
using namespace ref;
const char*stName(parse_status s){ return s==PARSING_DONE?"done":s==PARSING_INCOMPLETE?"incomplete":"failed"; }
void SimIn::poll(){ polls++; for(auto&l:late) if(l.atPoll==polls && l.b.size()){ push(l.b); L("  (mid-call: %zu bytes arrive)",l.b.size()); count("sched.arrival_mid_call"); l.b.clear(); } }
size_t SimIn::available(){ Host h; poll(); return q.size()-pos; }
int SimIn::read(){ Host h; if(pos>=q.size()){ overreads++; return -1; } reads++; return last=q[pos++]; }
size_t SimIn::read(uint8_t*a,size_t n){ size_t i=0; for(;i<n;i++){ int c=read(); if(c<0) break; a[i]=c; } return i; }
size_t SimOut::available(){ Host h; polls++; for(auto&l:late) if(l.atPoll==polls && l.more){ room+=l.more; L("  (mid-call: room for %zu more)",l.more); count("sched.room_mid_call"); l.more=0; } return room; }
size_t SimOut::write(uint8_t b){ Host h; if(!room){ refused++; return 0; } room--; got.push_back(b); return 1; }
size_t SimOut::write(const uint8_t*a,size_t n){ size_t i=0; for(;i<n;i++) if(!write(a[i])) break; return i; }

// ---------------------------------------------------------------- RNG
SimRng g_rng;
u32 SimRng::next(){ n++; u32 v; u64 z=(st+=0x9e3779b97f4a7c15ull); z=(z^(z>>30))*0xbf58476d1ce4e5b9ull; z^=z>>27; u32 r=(u32)(z>>13); bool inBurst= n>=from+1 && n<(u64)from+1+len;
  switch(mode){ case 0: v=r; break; case 1: v=a; break; /* stuck */ case 2: v= inBurst? 0:r; break; /* zero outage */ case 3: { u32 c=(u32)(n%(2+(a&3))); v=(c+1)*2654435761u^a; break; } /* short cycle */
    case 4: v=r&a; break; /* stuck-at-0 bits */ case 5: v=(u32)n; break; /* counter */ case 6: v= (n&1)? 0:r; break; /* every other word dead */ case 7: v= inBurst? 0xffffffffu:r; break; /* ones outage */ case 8: v= inBurst? a:r; break; default: v=r; }
  if(mode) count("fault.rng_bad_word"); if(keep) drawn.push_back(v); return v; }
void rngPlan(bool faulty){ g_rng=SimRng(); g_rng.st=choose(1u<<30); if(!faulty) return; static const char*names[]={"uniform","stuck","zero_outage","short_cycle","stuck_bits","counter","alternate_dead","ones_outage","repeat_burst"}; g_rng.mode=choose(9); g_rng.a= choose(3)? choose(1u<<30)*4u+choose(4) : oneOf({1,2,0x80000000u,0x3fffffffu-1,0x40000000u-2,0xfffffffeu,0x10000,0xffff0000u});
  if(g_rng.mode==1 && (g_rng.a&0x3fffffff)==0x3fffffff) g_rng.a^=1; if(g_rng.mode==1&&(g_rng.a&0x3fffffff)==0) g_rng.a|=1; if(g_rng.mode==4){ if((g_rng.a&0x3fffffff)==0) g_rng.a|=1; } g_rng.from=choose(60); g_rng.len=1+choose(300); if(g_rng.mode){ nontrivial(); count((std::string("fault.rng_")+names[g_rng.mode]).c_str()); } L("rng: %s a=%08x from %u len %u",names[g_rng.mode],g_rng.a,g_rng.from,g_rng.len); }
}
extern "C" uint32_t random32(void){ sim::Host h; return sim::g_rng.next(); }
namespace sim {
std::string cut(const std::string&s,size_t n){ return s.size()>n? s.substr(0,n)+"...":s; }
std::string diff(const std::string&want,const std::string&got){ size_t i=0; while(i<want.size()&&i<got.size()&&want[i]==got[i]) i++; size_t a=i>30?i-30:0; return "first difference at "+std::to_string(i)+": expected ..."+cut(want.substr(a),140)+" got ..."+cut(got.substr(std::min(a,got.size())),140); }
size_t chunkSize(int mode,size_t rem){ switch(mode){ case 0: return rem; case 1: return 1; case 2: return 1+choose(3); case 3: return std::min(rem,(size_t)1+choose(40)); case 4: return std::min(rem,(size_t)1+choose(300)); default: return rem>1?rem-1:1; } }
void deliver(Streamable*s,const Bytes&enc){ SimIn in; int mode= enc.size()>2000? (choose(2)?4:0) : choose(6); size_t sent=0; size_t consumed=0; do{ size_t rem=enc.size()-sent; size_t c=std::min(rem,chunkSize(mode,rem)); if(c<enc.size()){ count("sched.chunk"); nontrivial(); } in.push(Bytes(enc.begin()+sent,enc.begin()+sent+c)); sent+=c; budget(400000000ull); size_t b=in.pos; { Dev d; consumed+=in.parse(s); } (void)b; if(s->getStatus()==PARSING_FAILED) fail("spurious-failure","well-formed message rejected after %zu of %zu bytes",in.pos,enc.size()); }while(sent<enc.size());
  if(s->getStatus()!=PARSING_DONE||consumed!=enc.size()) fail("spurious-failure","well-formed message: %zu of %zu bytes taken, status %s",consumed,enc.size(),stName(s->getStatus())); L("delivered %zu bytes, mode %d",enc.size(),mode); }
Bytes collect(const Streamable*s){ Bytes out; size_t len; budget(400000000ull); { Dev d; len=s->length(); } int mode= len>2000? (choose(2)?4:0) : choose(6); size_t idle=0; while(out.size()<len){ SimOut o; size_t rem=len-out.size(); o.room=std::min(rem,chunkSize(mode,rem)); budget(400000000ull); size_t r; { Dev d; r=o.serialize(s,out.size()); } if(o.got.empty()&&++idle>3) fail("stall","output stops after %zu of %zu bytes",out.size(),len); if(r!=o.got.size()) fail("byte-count","call reports %zu bytes, emitted %zu",r,o.got.size()); app(out,o.got); } L("collected %zu bytes, mode %d",out.size(),mode); return out; }
Bytes pathBytes(const std::vector<u32>&p){ Bytes b; for(u32 x:p) put(b,x,4); return b; }
// ---------------------------------------------------------------- dumps
static std::string S(u64 v){ return std::to_string(v); }
std::string dumpM(const MTx&t,bool wit){ std::string o="tx v"+S(t.ver)+" lock"+S(t.lock)+"\n"; for(auto&i:t.in){ o+=" in "+hx(i.hash)+":"+S(i.idx)+" script "+hx(i.script)+" seq "+S(i.seq)+" wit "+(wit?hx(serWit(i.wit)):std::string("00"))+"\n"; } for(auto&p:t.out) o+=" out "+S(p.amt)+" "+hx(p.spk)+"\n"; return o; }
static Bytes serL(const Streamable&s){ Bytes b(s.length()+4); size_t n; { n=s.serialize(b.data(),b.size(),(size_t)0,RAW); } b.resize(n<=b.size()?n:b.size()); return b; }
static std::string hs(const Script&s){ return hx(s.scriptArray,s.scriptLen); }
std::string dumpL(const Tx&t){ std::string o="tx v"+S(t.version)+" lock"+S(t.locktime)+"\n"; for(size_t i=0;i<t.inputsNumber;i++){ const TxIn&x=t.txIns[i]; o+=" in "+hx(x.hash,32)+":"+S(x.outputIndex)+" script "+hs(x.scriptSig)+" seq "+S(x.sequence)+" wit "+hx(serL(x.witness))+"\n"; } for(size_t i=0;i<t.outputsNumber;i++) o+=" out "+S(t.txOuts[i].amount)+" "+hs(t.txOuts[i].scriptPubkey)+"\n"; return o; }
static std::string dd(const MDer&d){ std::string o="  der "+hx(d.pub)+" fp "+hx(d.fp)+" path"; for(u32 p:d.path) o+="/"+S(p); return o+"\n"; }
static Bytes secL(const ECPoint&p){ uint8_t b[65]; size_t n=p.sec(b,sizeof b); return B(b,n); }
static std::string dd(const PSBTDerivation&d){ std::string o="  der "+hx(secL(d.pubkey))+" fp "+hx(d.fingerprint,4)+" path"; for(int i=0;i<d.derivationLen;i++) o+="/"+S(d.derivation[i]); return o+"\n"; }
std::string dumpM(const PModel&p){ std::string o=dumpM(p.tx); for(auto&i:p.in){ o+=" pin amt "+S(i.amt)+" spk "+hx(i.spk)+" redeem "+hx(i.redeem)+" wscript "+hx(i.wscript)+"\n"; for(auto&d:i.der) o+=dd(d); for(auto&s:i.sig) o+="  sig "+hx(s.pub)+" "+hx(s.r)+hx(s.s)+"\n"; } for(auto&i:p.out){ o+=" pout redeem "+hx(i.redeem)+" wscript "+hx(i.wscript)+"\n"; for(auto&d:i.der) o+=dd(d); } return o; }
std::string dumpL(const PSBT&p){ std::string o=dumpL(p.tx); for(size_t i=0;i<p.tx.inputsNumber;i++){ auto&m=p.txInsMeta[i]; o+=" pin amt "+S(m.txOut.amount)+" spk "+hs(m.txOut.scriptPubkey)+" redeem "+hs(m.redeemScript)+" wscript "+hs(m.witnessScript)+"\n"; for(int j=0;j<m.derivationsLen;j++) o+=dd(m.derivations[j]); for(int j=0;j<m.signaturesLen;j++){ uint8_t b[64]; m.signatures[j].signature.bin(b,64); o+="  sig "+hx(secL(m.signatures[j].pubkey))+" "+hx(b,64)+"\n"; } }
  for(size_t i=0;i<p.tx.outputsNumber;i++){ auto&m=p.txOutsMeta[i]; o+=" pout redeem "+hs(m.redeemScript)+" wscript "+hs(m.witnessScript)+"\n"; for(int j=0;j<m.derivationsLen;j++) o+=dd(m.derivations[j]); } return o; }
std::string dumpM(const EModel&e){ MTx t=e.tx; std::string o=dumpM(t,false); for(auto&i:e.in) o+=" ein "+hx(i.xpub78)+" "+S(i.d[0])+"/"+S(i.d[1])+" amt "+S(i.amt)+"\n"; return o; }
std::string dumpL(const ElectrumTx&e){ std::string o=dumpL(e.tx); for(size_t i=0;i<e.tx.inputsNumber;i++){ auto&m=e.txInsMeta[i]; o+=" ein "+hx(serL(m.hd))+" "+S(m.derivation[0])+"/"+S(m.derivation[1])+" amt "+S(m.amount)+"\n"; } return o; }

// ---------------------------------------------------------------- generators
Bytes key32(){ Bytes k=blob(32); if(isZero(u256(k.data()))||ref::cmp(u256(k.data()),N_)>=0){ k[0]=0x7f; k[31]|=1; } return k; }
Bytes pubOf(const Bytes&k,bool c){ return sec(mulG(u256(k.data())),c); }
Bytes encScript(const Bytes&s){ return cat(varint(s.size()),s); }
static size_t genLen(const GenOpt&o){ switch(choose(o.big?24:16)){ case 0: return 0; case 1: return 1; case 2: return 22; case 3: return 25; case 4: return 23; case 5: return 34; case 6: case 7: case 8: case 9: return choose(60); case 10: return 75; case 11: return 76; case 12: return 107; case 13: case 14: case 15: return 1+choose(120);
  case 16: return 252; case 17: return 253; case 18: return 254; case 19: return 255; case 20: return 256; case 21: return 251; case 22: return 200+choose(400); default: return choose(40)==39? oneOf({65534,65535,65536,65537}) : 500+choose(1000); } }
Bytes genScript(const GenOpt&o){ size_t n=genLen(o); if(n==22&&chance(1,2)) return p2wpkh(blob(20)); if(n==25&&chance(1,2)) return p2pkh(blob(20)); return blob(n); }
MIn genIn(const GenOpt&o){ MIn i; i.hash=blob(32); i.idx=word32(); i.script=genScript(o); i.seq=word32(); return i; }
MOut genOut(const GenOpt&o){ MOut p; p.amt=word64(); p.spk=genScript(o); return p; }
std::vector<Bytes> genWit(const GenOpt&o){ std::vector<Bytes> w; size_t n= o.big&&chance(1,40)? oneOf({17,100,251,252}) : choose(5); GenOpt s=o; if(n>8) s.big=false; for(size_t i=0;i<n;i++) w.push_back(n>8? blob(choose(6)) : genScript(s)); return w; }
// a transaction whose encoding length sits on a varint, byte or 16-bit boundary
static size_t boundary(const GenOpt&o){ return o.big&&chance(1,20)? oneOf({65520,65528,65530,65531,65534,65535,65536,65537}) : oneOf({248,250,251,252,253,254,255,256,505,506,507,508,511,512,761,763,768,1019,1024}); }
static bool padTo(MTx&t,size_t want){ if(t.out.empty()) return false; Bytes old=t.out[0].spk; for(size_t k=3;k--;){ size_t ov= k==0?1:k==1?3:5; t.out[0].spk.clear(); size_t l=ser(t,false).size()-1; if(l+ov>want) continue; t.out[0].spk=blob(want-l-ov); if(ser(t,false).size()==want) return true; } t.out[0].spk=old; return false; }
MTx genTx(const GenOpt&o,int segwit){ MTx t; t.ver=word32(); t.lock=word32(); bool sw= segwit==2? chance(1,2) : segwit; size_t ni=1+choose(o.maxIn), no=choose(o.maxOut+1); GenOpt so=o;
  if(o.big&&chance(1,30)){ ni=oneOf({6,7,16,17,33,127,128,200,251,252}); so.big=false; count("probe.many_inputs"); } if(o.big&&chance(1,30)){ no=oneOf({6,16,17,128,251,252}); so.big=false; count("probe.many_outputs"); }
  bool lite= ni>4||no>4;
  for(size_t i=0;i<ni;i++){ if(lite){ MIn x; x.hash=blob(32); x.idx=i; x.script= i%7==0? blob(choose(4)):Bytes(); x.seq=0xffffffff-i; t.in.push_back(x); } else t.in.push_back(genIn(so)); }
  for(size_t i=0;i<no;i++){ if(lite){ MOut p; p.amt=i*1000+1; p.spk= i%5==0? blob(choose(26)):Bytes(22,(uint8_t)i); t.out.push_back(p); } else t.out.push_back(genOut(so)); }
  if(sw){ bool any=false; for(auto&i:t.in){ if(lite){ if(choose(3)) i.wit={blob(choose(5))}; } else i.wit=genWit(so); if(i.wit.size()) any=true; } if(!any) t.in[choose(t.in.size())].wit={blob(choose(3))}; }
  if(!lite&&o.big&&chance(1,12)) padTo(t,boundary(o)); return t; }
static MDer genDer(){ MDer d; d.pub=pubOf(key32(),!chance(1,5)); d.fp=blob(4); size_t n= chance(1,12)? oneOf({0,12,61,62,63,64,65,127,128,254,255}) : choose(6); for(size_t i=0;i<n;i++) d.path.push_back(word32()); return d; }
static void kv(std::vector<KV>&s,const Bytes&k,const Bytes&v){ s.push_back({k,v}); }
static Bytes K(int t,const Bytes&rest=Bytes()){ Bytes k(1,(uint8_t)t); app(k,rest); return k; }
static Bytes unkKey(){ return blob(choose(4)? choose(4) : choose(3)? oneOf({31,32,33,64,65,75,250,251,252,253,254,255,256}) : choose(300)); }
static Bytes derVal(const MDer&d){ Bytes v=d.fp; for(u32 p:d.path) put(v,p,4); return v; }
PsbtMsg genPsbt(const GenOpt&o){ PsbtMsg r; GenOpt so=o; so.big= o.big&&chance(1,6); bool wide= o.big&&chance(1,25); size_t ni=1+choose(o.maxIn), no=choose(o.maxOut+1);
  if(wide){ size_t tot=oneOf({20,60,127,128,200,254}); ni=1+choose(tot); ni=std::min(ni,(size_t)252); no=std::min(tot-ni,(size_t)252); so.big=false; count("probe.psbt_many_sections"); }
  MTx t; t.ver=word32(); t.lock=word32(); MPsbt p; 
  for(size_t i=0;i<ni;i++){ MPIn m; std::vector<KV> s; MIn in; in.seq=word32(); in.script= chance(1,12)?blob(choose(5)):Bytes(); in.hash=blob(32); in.idx=word32();
    int kind= wide? (choose(8)==7) : choose(4);
    if(kind==1||kind==3){ MTx pv; do{ GenOpt q=so; q.maxIn=2; q.maxOut=3; q.big=so.big&&chance(1,6); pv=genTx(q,2); if(pv.out.empty()) pv.out.push_back(genOut(q)); }while(0); in.hash=txhash(pv); in.idx=choose(pv.out.size()); kv(s,K(0),ser(pv)); m.utxo=true; m.amt=pv.out[in.idx].amt; m.spk=pv.out[in.idx].spk; count("probe.psbt_prevtx"); }
    if(kind==2||kind==3){ MOut u; if(kind==3){ u.amt=m.amt; u.spk=m.spk; } else u=genOut(so); kv(s,K(1),ser(u)); m.utxo=true; m.amt=u.amt; m.spk=u.spk; }
    if(!wide||choose(10)==9){
      if(chance(1,3)){ int n=1+choose(2); for(int j=0;j<n;j++){ MSig g; g.pub=pubOf(key32(),!chance(1,5)); g.r=blob(32); g.s=blob(32); if(chance(1,4)){ size_t z=choose(31); for(size_t k=0;k<z;k++) g.r[k]=0; } if(chance(1,4)){ size_t z=choose(31); for(size_t k=0;k<z;k++) g.s[k]=0; } g.r[31]|=1; g.s[31]|=1; Bytes v=der(g.r,g.s); v.push_back(1); kv(s,K(2,g.pub),v); m.sig.push_back(g); } }
      if(chance(1,6)) kv(s,K(3),Bytes{1,0,0,0});
      if(chance(1,3)){ m.redeem=genScript(so); kv(s,K(4),m.redeem); }
      if(chance(1,3)){ m.wscript=genScript(so); kv(s,K(5),m.wscript); }
      if(chance(1,2)){ int n=1+choose(3); for(int j=0;j<n;j++){ MDer d=genDer(); kv(s,K(6,d.pub),derVal(d)); m.der.push_back(d); } }
      if(chance(1,5)) kv(s,K(7+choose(240),unkKey()),genScript(so)); }
    // shuffle a little: rotate
    if(s.size()>1&&chance(1,3)){ size_t k=choose(s.size()); bool sens=false; for(auto&x:s) if(x.k[0]<=2||x.k[0]==6) sens=true; if(!sens) std::rotate(s.begin(),s.begin()+k,s.end()); }
    t.in.push_back(in); r.m.in.push_back(m); p.in.push_back(s); }
  for(size_t i=0;i<no;i++){ MPOut m; std::vector<KV> s; MOut u= wide? MOut{i+1,Bytes(3,(uint8_t)i)} : genOut(so); if(!wide||choose(10)==9){ if(chance(1,3)){ m.redeem=genScript(so); kv(s,K(0),m.redeem); } if(chance(1,3)){ m.wscript=genScript(so); kv(s,K(1),m.wscript); } if(chance(1,2)){ int n=1+choose(2); for(int j=0;j<n;j++){ MDer d=genDer(); kv(s,K(2,d.pub),derVal(d)); m.der.push_back(d); } } if(chance(1,6)) kv(s,K(3+choose(240),unkKey()),genScript(so)); }
    t.out.push_back(u); r.m.out.push_back(m); p.out.push_back(s); }
  if(chance(1,6)) kv(p.global,K(1+choose(200),unkKey()),genScript(so));
  if(!wide && chance(1,8)&&padTo(t,boundary(o))) count("probe.psbt_tx_len_boundary");
  p.tx=t; r.m.tx=t; r.enc=ser(p); return r; }
Bytes psbtOut(const PModel&p){ MPsbt q; q.tx=p.tx; q.in.resize(p.in.size()); q.out.resize(p.out.size()); for(size_t i=0;i<p.in.size();i++) for(auto&g:p.in[i].sig){ Bytes v=der(g.r,g.s); v.push_back(1); kv(q.in[i],K(2,g.pub),v); } return ser(q); }
const uint8_t PUBV[10][4]={{4,0x88,0xb2,0x1e},{4,0x9d,0x7c,0xb2},{4,0xb2,0x47,0x46},{2,0x95,0xb4,0x3f},{2,0xaa,0x7e,0xd3},{4,0x35,0x87,0xcf},{4,0x4a,0x52,0x62},{4,0x5f,0x1c,0xf6},{2,0x42,0x89,0xef},{2,0x57,0x54,0x83}};
const uint8_t PRVV[10][4]={{4,0x88,0xad,0xe4},{4,0x9d,0x78,0x78},{4,0xb2,0x43,0x0c},{2,0x95,0xb0,0x05},{2,0xaa,0x7a,0x99},{4,0x35,0x83,0x94},{4,0x4a,0x4e,0x28},{4,0x5f,0x18,0xbc},{2,0x42,0x85,0xb5},{2,0x57,0x50,0x48}};
HD genHD(){ HD h; h.key=key32(); h.cc=blob(32); h.depth=choose(2)?choose(256):choose(6); h.pfp=blob(4); h.child=word32(); return h; }
EModel genElectrum(const GenOpt&o){ EModel e; GenOpt so=o; e.segwit=chance(1,2); so.big=false; MTx t; t.ver=word32(); t.lock=word32(); size_t ni= o.big&&chance(1,15)? oneOf({5,6,7,12,40}) : 1+choose(o.maxIn); size_t no= o.big&&chance(1,30)? oneOf({30,252}) : choose(o.maxOut+1);
  Bytes common= hdPubRaw(genHD(),PUBV[choose(10)]);
  for(size_t i=0;i<ni;i++){ MIn x; x.hash=blob(32); x.idx=word32(); x.seq=word32(); if(e.segwit&&chance(1,3)) x.script= encScript(p2wpkh(blob(20))); MEIn m; m.xpub78= ni>6||chance(1,2)? common : hdPubRaw(genHD(),PUBV[choose(10)]); m.d[0]= choose(3)==2? word32():choose(2); m.d[1]=word32(); m.amt=e.segwit? word64():0; t.in.push_back(x); e.in.push_back(m); }
  for(size_t i=0;i<no;i++){ if(no>20) t.out.push_back({i,Bytes(2,1)}); else t.out.push_back(genOut(so)); } if(chance(1,10)){ GenOpt q=o; q.big=o.big&&chance(1,2); padTo(t,boundary(q)-(e.segwit&&choose(2)?2:0)); } e.tx=t; return e; }
Bytes electrumEnc(const EModel&e){ Bytes o={0x45,0x50,0x54,0x46,0xff,0x00}; MTx t=e.tx; put(o,t.ver,4); if(e.segwit){ o.push_back(0); o.push_back(1); } o.push_back(t.in.size());
  for(size_t i=0;i<t.in.size();i++){ MIn x=t.in[i]; if(!e.segwit){ Bytes s={0x01,0xff,0x4c,0x53,0xff}; app(s,e.in[i].xpub78); put(s,e.in[i].d[0],2); put(s,e.in[i].d[1],2); x.script=s; } app(o,ser(x)); }
  o.push_back(t.out.size()); for(auto&p:t.out) app(o,ser(p));
  if(e.segwit) for(auto&m:e.in){ app(o,Bytes{0xfe,0xff,0xff,0xff,0xff}); put(o,m.amt,8); app(o,Bytes{0x00,0x00,0x00,0x01,0xff,0x53,0xff}); app(o,m.xpub78); put(o,m.d[0],2); put(o,m.d[1],2); }
  put(o,t.lock,4); return o; }

// ---------------------------------------------------------------- kinds
template<class T> struct ObjT: Obj{ T v; std::string(*d)(T&); Streamable*s()override{ return &v; } std::string dump()override{ return d(v); } };
template<class T,std::string(*F)(T&)> static Obj*mk(){ auto*o=new ObjT<T>; o->d=F; return o; }
static std::string dScript(Script&s){ return hs(s); }
static std::string dWit(Witness&w){ return S(w.count())+" "+hx(serL(w)); }
static std::string dIn(TxIn&x){ return hx(x.hash,32)+":"+S(x.outputIndex)+" "+hs(x.scriptSig)+" "+S(x.sequence)+" wit "+hx(serL(x.witness)); }
static std::string dOut(TxOut&x){ return S(x.amount)+" "+hs(x.scriptPubkey); }
static std::string dTx(Tx&t){ return dumpL(t); }
static std::string dPsbt(PSBT&p){ return dumpL(p); }
static std::string dEl(ElectrumTx&p){ return dumpL(p); }
static std::string dSig(Signature&s){ uint8_t b[64]; s.bin(b,64); return hx(b,64); }
static std::string dSch(SchnorrSignature&s){ return hx(serL(s)); }
static std::string dPt(ECPoint&p){ return hx(p.point,64)+(p.compressed?" c":" u")+(p.isValid()?" ok":" bad"); }
static std::string dPub(PublicKey&p){ return dPt(p); }
static std::string dSc(ECScalar&s){ uint8_t b[32]; s.getSecret(b); return hx(b,32); }
static std::string dPrv(PrivateKey&s){ uint8_t b[32]; s.getSecret(b); PublicKey p=s.publicKey(); return hx(b,32)+" pub "+hx(p.point,64); }
static std::string tn(ScriptType t){ return S(t); }
static std::string dHd(HDPrivateKey&h){ uint8_t b[32]; h.getSecret(b); PublicKey p=h.publicKey(); return hx(b,32)+" pub "+hx(p.point,64)+(p.compressed?" c":" u")+" cc "+hx(h.chainCode,32)+" d"+S(h.depth)+" fp "+hx(h.parentFingerprint,4)+" n"+S(h.childNumber)+" t"+tn(h.type)+" net "+h.network->bech32; }
static std::string dHp(HDPublicKey&h){ return dPt(h)+" cc "+hx(h.chainCode,32)+" d"+S(h.depth)+" fp "+hx(h.parentFingerprint,4)+" n"+S(h.childNumber)+" t"+tn(h.type)+" net "+h.network->bech32; }
static std::string ptHex(const Bytes&sec65){ return hx(sec65.data()+1,64); }
static Msg gScript(const GenOpt&o){ Bytes s=genScript(o); Msg m; m.enc=m.emit=encScript(s); m.dump=hx(s); return m; }
static Msg gWit(const GenOpt&o){ auto w=genWit(o); Msg m; m.enc=m.emit=serWit(w); m.dump=S(w.size())+" "+hx(m.enc); return m; }
static Msg gIn(const GenOpt&o){ MIn i=genIn(o); Msg m; m.enc=m.emit=ser(i); m.dump=hx(i.hash)+":"+S(i.idx)+" "+hx(i.script)+" "+S(i.seq)+" wit 00"; return m; }
static Msg gOut(const GenOpt&o){ MOut p=genOut(o); Msg m; m.enc=m.emit=ser(p); m.dump=S(p.amt)+" "+hx(p.spk); return m; }
static Msg gTxL(const GenOpt&o){ MTx t=genTx(o,0); Msg m; m.enc=m.emit=ser(t); m.dump=dumpM(t); return m; }
static Msg gTxS(const GenOpt&o){ MTx t=genTx(o,1); Msg m; m.enc=m.emit=ser(t); m.dump=dumpM(t); return m; }
static Msg gPsbt(const GenOpt&o){ PsbtMsg p=genPsbt(o); Msg m; m.enc=p.enc; m.emit=psbtOut(p.m); m.dump=dumpM(p.m); return m; }
static Msg gEl(const GenOpt&o){ EModel e=genElectrum(o); Msg m; m.enc=electrumEnc(e); m.emit=ser(e.tx,false); m.dump=dumpM(e); return m; }
static Bytes sigNum(){ Bytes r=blob(32); switch(choose(4)){ case 1: r[0]=0; break; case 2: { size_t z=choose(32); for(size_t i=0;i<z;i++) r[i]=0; if(chance(1,2)) r[z]|=0x80; else r[z]&=0x7f; break; } case 3: r[0]|=0x80; break; } r[31]|=1; return r; }
static Msg gSig(const GenOpt&){ Bytes r=sigNum(),s=sigNum(); Msg m; m.enc=m.emit=der(r,s); m.dump=hx(r)+hx(s); return m; }
static Msg gSch(const GenOpt&){ Msg m; m.enc=m.emit=blob(64); m.dump=hx(m.enc); return m; }
static Msg gPt(const GenOpt&){ Bytes k=key32(); bool c=!chance(1,2); Msg m; m.enc=m.emit=pubOf(k,c); m.dump=ptHex(pubOf(k,false))+(c?" c":" u")+" ok"; return m; }
static Msg gSc(const GenOpt&){ Bytes k=key32(); Msg m; m.enc=m.emit=k; m.dump=hx(k); return m; }
static Msg gPrv(const GenOpt&){ Bytes k=key32(); Msg m; m.enc=m.emit=k; m.dump=hx(k)+" pub "+ptHex(pubOf(k,false)); return m; }
static const int TYPES[5]={UNKNOWN_TYPE,P2SH_P2WPKH,P2WPKH,P2SH_P2WSH,P2WSH};
static std::string hdTail(const HD&h,int v){ return " cc "+hx(h.cc)+" d"+S(h.depth)+" fp "+hx(h.pfp)+" n"+S(h.child)+" t"+S(TYPES[v%5])+" net "+(v<5?"bc":"tb"); }
static Msg gHd(const GenOpt&){ HD h=genHD(); int v=choose(10); Msg m; m.enc=m.emit=hdRaw(h,PRVV[v]); m.dump=hx(h.key)+" pub "+ptHex(pubOf(h.key,false))+" c"+hdTail(h,v); return m; }
static Msg gHp(const GenOpt&){ HD h=genHD(); int v=choose(10); Msg m; m.enc=m.emit=hdPubRaw(h,PUBV[v]); m.dump=ptHex(pubOf(h.key,false))+" c ok"+hdTail(h,v); return m; }
const Kind kinds[]={
 {"script",mk<Script,dScript>,gScript},{"witness",mk<Witness,dWit>,gWit},{"txin",mk<TxIn,dIn>,gIn},{"txout",mk<TxOut,dOut>,gOut},
 {"tx",mk<Tx,dTx>,gTxL},{"segwit_tx",mk<Tx,dTx>,gTxS},{"psbt",mk<PSBT,dPsbt>,gPsbt},{"electrum",mk<ElectrumTx,dEl>,gEl},
 {"signature",mk<Signature,dSig>,gSig},{"schnorr_signature",mk<SchnorrSignature,dSch>,gSch},{"point",mk<ECPoint,dPt>,gPt},{"pubkey",mk<PublicKey,dPub>,gPt},
 {"scalar",mk<ECScalar,dSc>,gSc},{"privkey",mk<PrivateKey,dPrv>,gPrv},{"hdpriv",mk<HDPrivateKey,dHd>,gHd},{"hdpub",mk<HDPublicKey,dHp>,gHp}};
const int nkinds=sizeof kinds/sizeof*kinds;
int pickKind(){ static const uint8_t w[]={0,1,2,3,4,4,5,5,5,6,6,6,6,7,7,7,8,8,9,10,11,12,13,14,15}; int k=w[choose(sizeof w)]; static std::string names[32]; count((std::string("kind.")+kinds[k].name).c_str()); return k; }
}
