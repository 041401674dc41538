// C18: a multisig quorum of devices and a coordinator over an unreliable network.
// Devices run the library. The network, the coordinator, framing, timers and durable storage are simulated.
#include "world.h"
#include <string.h>
#include <algorithm>
#include <map>
#include <set>
#include <new>
namespace sim {
using namespace ref;
Bytes keyNum(); Bytes pushOp(const Bytes&);
static const u32 HARD=0x80000000u;
typedef std::vector<u32> Path;
enum{ ANN=1, ACK, ADDRREQ, ADDR, FRAG, STAT, GET, DATA, NEED };
struct Pkt{ int from,to,type; Bytes p; Bytes chk; };
static Bytes chkOf(const Pkt&k){ Bytes h={(uint8_t)k.from,(uint8_t)k.to,(uint8_t)k.type}; if(k.type!=ANN) app(h,k.p); Bytes d=dsha(h); d.resize(4); return d; } // announcements are protected by their own base58 checksum only
static u32 rd(const Bytes&b,size_t at,int n){ u32 v=0; for(int i=0;i<n&&at+i<b.size();i++) v|=(u32)b[at+i]<<(8*i); return v; }

struct Addr{ u32 chain,idx; std::vector<Bytes> pubs; Bytes ms,spk,redeem,wscript; std::string text; };      // reference
struct Request{ MTx tx; MPsbt p; std::vector<size_t> use; std::vector<u64> amt; std::vector<std::map<Bytes,Bytes>> sigs; Bytes enc; int change=-1; size_t changeAddr=0; };
struct Device{ bool up=false,dead=false; u32 boots=0; Bytes seed; HD root,acct; Bytes pub,raw,fp; // durable: seed, and the registration when the device stores it
  std::vector<std::string> stored; HDPrivateKey*key=nullptr; std::vector<HDPublicKey>*known=nullptr; std::set<int> acked; PSBT*psbt=nullptr; SimIn*in=nullptr; int session=-1; u32 got=0; bool ready=false; std::map<size_t,Script>*ms=nullptr,*spk=nullptr; }; // ms, spk: scripts it has derived since it was switched on
struct Peer{ u32 boot=0,acked=0,total=0; bool ready=false; Bytes reply; bool done=false; std::set<size_t> addrs; };
static struct Ceremony{ int n,m,type; bool durable,sequential; const Network*net; std::string hrp; uint8_t shv; Path path; std::string spath; std::vector<Device> d; std::vector<Peer> peer; std::vector<Pkt> fl; std::vector<Addr> addr; std::vector<std::vector<bool>> cut; std::vector<int> order; Request rq; std::map<int,Request> sent; int session=0; size_t frag,win; bool signing=false,early=false; u64 events=0; bool heapFault=false; } *C;

static Addr mkAddr(u32 chain,u32 idx){ Addr a; a.chain=chain; a.idx=idx; for(auto&d:C->d) a.pubs.push_back(pubOf(derive(d.acct,{chain,idx}).key)); std::vector<Bytes> s=a.pubs; std::sort(s.begin(),s.end()); a.ms=multisig(C->m,s);
  if(C->type==0){ a.wscript=a.ms; a.spk=p2wsh(a.ms); } else if(C->type==1){ a.wscript=a.ms; a.redeem=p2wsh(a.ms); a.spk=p2sh(a.redeem); } else { a.redeem=a.ms; a.spk=p2sh(a.ms); }
  if(C->type==0) a.text=segwitAddr(C->hrp,0,sha256(a.ms),1); else { Bytes b(1,C->shv); app(b,Bytes(a.spk.begin()+2,a.spk.begin()+22)); a.text=base58check(b); } return a; }
static void send(int from,int to,int type,const Bytes&p){ Pkt k; k.from=from; k.to=to; k.type=type; k.p=p; k.chk=chkOf(k); C->fl.push_back(k); }
// ---------------------------------------------------------------- device firmware
static void powerOff(int i){ Device&v=C->d[i]; { Dev d; delete v.key; delete v.known; delete v.psbt; } delete v.ms; delete v.spk; v.ms=v.spk=nullptr; delete v.in; v.key=nullptr; v.known=nullptr; v.psbt=nullptr; v.in=nullptr; v.acked.clear(); v.session=-1; v.got=0; v.ready=false; v.up=false; }
static int idxOf(const PublicKey&p){ uint8_t s[33]; p.sec(s,33); for(int i=0;i<C->n;i++) if(C->d[i].pub==B(s,33)) return i; return -1; }
static void learn(Device&v,const HDPublicKey&k){ for(auto&x:*v.known) if(x==k) return; v.known->push_back(k); }
static bool accept(int i,const std::string&t){ Device&v=C->d[i]; bool ok; HDPublicKey k; { Dev d; HDPublicKey x(t.c_str()); ok=x.isValid(); if(ok) k=x; } if(!ok) return false; int who=idxOf(k); if(who<0||memcmp(k.chainCode,C->d[who].acct.cc.data(),32)) fail("wrong-key","device %d took a key that nobody announced: %s",i,t.c_str()); { Host h; learn(v,k); } return true; }
static void powerOn(int i){ Device&v=C->d[i]; v.up=true; v.boots++; v.known=new std::vector<HDPublicKey>; v.in=new SimIn; v.ms=new std::map<size_t,Script>; v.spk=new std::map<size_t,Script>; { Dev d; v.key=new HDPrivateKey; v.key->fromSeed(v.seed.data(),v.seed.size()); v.psbt=new PSBT; } HDPublicKey own; { Dev d; HDPrivateKey a= choose(2)? v.key->derive(C->spath.c_str()) : v.key->derive(C->path.data(),C->path.size()); a.network=C->net; own=a.xpub(); } learn(v,own); for(auto&t:v.stored) if(!accept(i,t)) fail("wrong-key","device %d refuses the key it stored: %s",i,t.c_str()); }
static std::string announce(int i){ Device&v=C->d[i]; std::string t; { Dev d; t=(*v.known)[0].xpub(); } Bytes raw; CHECK(unbase58check(t,raw)&&raw.size()==78,"wrong-key","device %d announces text that is not an extended key: %s",i,t.c_str()); Bytes want=v.raw; std::copy(raw.begin(),raw.begin()+4,want.begin()); CHECK(raw==want,"wrong-key","device %d announces %s, its account key is %s",i,hx(raw).c_str(),hx(want).c_str()); return t; }
static void sortedFor(Device&v,u32 chain,u32 idx,Script&ms,Script&spk);
static void scriptsFor(int i,size_t which,Script&ms,Script&spk){ Device&v=C->d[i]; const Addr&a=C->addr[which]; if(v.ms->count(which)){ Dev d; ms=(*v.ms)[which]; spk=(*v.spk)[which]; } else { Dev d; sortedFor(v,a.chain,a.idx,ms,spk); } Bytes m=B(ms.scriptArray,ms.scriptLen),s=B(spk.scriptArray,spk.scriptLen); if(C->heapFault&&(m.empty()||s.empty())) throw std::bad_alloc(); CHECK(m==a.ms&&s==a.spk,"disagreement","device %d (keys arrived in its own order) derives %s for %u/%u, expected %s",i,cut(hx(m)).c_str(),a.chain,a.idx,cut(hx(a.ms)).c_str()); (*v.ms)[which]=Script(m.data(),m.size()); (*v.spk)[which]=Script(s.data(),s.size()); }
static void sortedFor(Device&v,u32 chain,u32 idx,Script&ms,Script&spk){ PublicKey ks[16]; size_t n=v.known->size(); for(size_t j=0;j<n;j++){ uint32_t p[2]={chain,idx}; HDPublicKey c= choose(2)? (*v.known)[j].derive(p,2) : (*v.known)[j].child(chain).child(idx); ks[j]=c; } ms=sortedmulti(C->m,ks,n); spk= C->type==0? (choose(2)? wsh(ms) : ms.scriptPubkey(P2WSH)) : C->type==1? sh(wsh(ms)) : (choose(2)? sh(ms) : ms.scriptPubkey(P2SH)); }
static Bytes lib(const Script&s){ return B(s.scriptArray,s.scriptLen); }
static void wholePsbt(int i){ // the device checks the request against its own registration, then signs
  Device&v=C->d[i]; const Request&r=C->sent[v.session]; PSBT&p=*v.psbt; CHECK(dumpL(p.tx)==dumpM(r.tx,true),"content","device %d received another transaction: %s",i,diff(dumpM(r.tx,true),dumpL(p.tx)).c_str());
  u64 a=0,b=0; for(u64 x:r.amt) a+=x; for(auto&o:r.tx.out) b+=o.amt; u64 fee; { Dev d; fee=p.fee(); } CHECK(fee==a-b,"wrong-fee","device %d shows fee %llu instead of %llu",i,(unsigned long long)fee,(unsigned long long)(a-b));
  for(size_t j=0;j<r.tx.in.size();j++){ Script ms,spk; scriptsFor(i,r.use[j],ms,spk); bool same; { Dev d; const Script&have= C->type==2? p.txInsMeta[j].redeemScript : p.txInsMeta[j].witnessScript; same= have==ms && p.txInsMeta[j].txOut.scriptPubkey==spk; } CHECK(same,"disagreement","device %d: the script of input %zu does not compare equal to its own",i,j); }
  if(r.change>=0){ bool mine; Script ms,spk; scriptsFor(i,r.changeAddr,ms,spk); { Dev d; mine=p.isMine(r.change,*v.key); } CHECK(mine&&lib(spk)==r.tx.out[r.change].spk,"disagreement","device %d does not recognise the change output",i); }
  u32 n; { Dev d; n=p.sign(*v.key); } L("device %d signs %u inputs of request %d",i,n,v.session); if(n!=r.tx.in.size()){ if(C->heapFault) throw std::bad_alloc(); fail("not-signed","device %d signs %u of %zu inputs",i,n,r.tx.in.size()); } v.ready=true; }
static void stat(int i,int s){ Device&v=C->d[i]; bool cur= s==v.session; Bytes b; put(b,s,1); put(b,v.boots,4); put(b,cur?v.got:0,4); put(b,cur&&v.ready,1); put(b,cur&&v.ready?v.psbt->length():0,4); send(i,C->n,STAT,b); }
static void onDevice(int i,const Pkt&k){ Device&v=C->d[i]; switch(k.type){
  case ANN: { std::string t(k.p.begin(),k.p.end()); if(t.find('\0')!=std::string::npos) t.resize(t.find('\0')); if(!accept(i,t)){ count("probe.announcement_refused"); return; } if(C->durable&&!std::count(v.stored.begin(),v.stored.end(),t)){ v.stored.push_back(t); } send(i,k.from,ACK,Bytes()); return; }
  case ACK: v.acked.insert(k.from); return;
  case NEED: v.acked.erase(k.from); return;
  case ADDRREQ: { if((int)v.known->size()<C->n) return; u32 which=rd(k.p,0,1); const Addr&a=C->addr[which]; Script ms,spk; std::string t; scriptsFor(i,which,ms,spk); { Dev d; t=spk.address(C->net); } if(C->heapFault&&t.empty()) throw std::bad_alloc(); CHECK(t==a.text,"disagreement","device %d shows address %s for %u/%u, expected %s",i,t.c_str(),a.chain,a.idx,a.text.c_str()); Bytes b; put(b,which,1); for(char c:t) b.push_back(c); send(i,C->n,ADDR,b); count("probe.address_agreed"); return; }
  case FRAG: { if((int)v.known->size()<C->n) return; int s=rd(k.p,0,1); if(s<v.session) return; if(s>v.session){ { Dev d; delete v.psbt; v.psbt=nullptr; v.psbt=new PSBT; } delete v.in; v.in=new SimIn; v.session=s; v.got=0; v.ready=false; }
    u32 off=rd(k.p,1,4); if(off==v.got&&!v.ready){ Bytes data(k.p.begin()+5,k.p.end()); v.in->push(data); { Dev d; v.in->parse(v.psbt); } v.got+=data.size(); parse_status st=v.psbt->getStatus(); if(st==PARSING_FAILED){ if(C->heapFault) throw std::bad_alloc(); fail("spurious-failure","device %d refuses a well-formed request at byte %u",i,v.got); } if(st==PARSING_DONE&&v.got==C->sent[s].enc.size()) wholePsbt(i); else CHECK(st!=PARSING_DONE,"content","device %d: request complete after %u of %zu bytes",i,v.got,C->sent[s].enc.size()); } stat(i,s); return; }
  case GET: { int s=rd(k.p,0,1); if(s!=v.session||!v.ready){ if(s>=v.session) stat(i,s); return; } u32 off=rd(k.p,1,4); size_t want=rd(k.p,5,4); SimOut o; o.room=want; { Dev d; o.serialize(v.psbt,off); } Bytes b; put(b,s,1); put(b,off,4); put(b,v.psbt->length(),4); app(b,o.got); send(i,C->n,DATA,b); return; } } }
static void deviceTimer(int i){ Device&v=C->d[i]; if((int)v.known->size()<C->n) for(int j=0;j<C->n;j++) if(j!=i) send(i,j,NEED,Bytes()); if((int)v.acked.size()>=C->n-1) return; std::string t=announce(i); Bytes b(t.begin(),t.end()); for(int j=0;j<C->n;j++) if(j!=i&&!v.acked.count(j)) send(i,j,ANN,b); }
// ---------------------------------------------------------------- coordinator
static Bytes K(int t,const Bytes&rest=Bytes()){ Bytes k(1,(uint8_t)t); app(k,rest); return k; }
static Bytes deriv(int dev,const Addr&a){ const Device&d=C->d[dev]; Bytes v=d.fp; for(u32 q:C->path) put(v,q,4); put(v,a.chain,4); put(v,a.idx,4); return v; }
static void newRequest(){ Request r; r.tx.ver=2; r.tx.lock=choose(2)?0:word32(); size_t ni=1+choose(2); u64 total=0; for(size_t i=0;i<ni;i++){ size_t w=choose(C->addr.size()); const Addr&a=C->addr[w]; r.use.push_back(w); u64 amt=1000+choose(1u<<30); total+=amt; r.amt.push_back(amt); MIn in; in.seq=0xffffffff-choose(3); std::vector<KV> kv; bool prev= C->type==2||chance(1,4); if(prev){ MTx pv; pv.ver=1; pv.lock=0; MIn pi; pi.hash=blob(32); pi.idx=0; pi.seq=1; pv.in.push_back(pi); if(choose(2)) pv.out.push_back(MOut{7,Bytes(22,9)}); in.idx=pv.out.size(); pv.out.push_back(MOut{amt,a.spk}); in.hash=txhash(pv); kv.push_back({K(0),ser(pv)}); } else { in.hash=blob(32); in.idx=choose(4); } if(!prev||(C->type!=2&&chance(1,2))) kv.push_back({K(1),ser(MOut{amt,a.spk})}); if(a.redeem.size()) kv.push_back({K(4),a.redeem}); if(a.wscript.size()) kv.push_back({K(5),a.wscript}); for(int j=0;j<C->n;j++) kv.push_back({K(6,a.pubs[j]),deriv(j,a)}); r.tx.in.push_back(in); r.p.in.push_back(kv); }
  size_t no=1+choose(2); bool ch=chance(2,3); for(size_t i=0;i<no;i++){ MOut o; o.amt=total/(no+1+choose(3)); std::vector<KV> kv; if(ch&&i==no-1){ r.change=i; r.changeAddr=choose(C->addr.size()); const Addr&a=C->addr[r.changeAddr]; o.spk=a.spk; for(int j=0;j<C->n;j++) kv.push_back({K(2,a.pubs[j]),deriv(j,a)}); } else o.spk=p2wpkh(blob(20)); r.tx.out.push_back(o); r.p.out.push_back(kv); } r.p.tx=r.tx; r.sigs.resize(ni); r.enc=ser(r.p); C->rq=r; C->session++; C->sent[C->session]=r; for(auto&p:C->peer){ p.acked=0; p.ready=false; p.reply.clear(); p.done=false; p.total=0; } C->order.clear(); for(int i=0;i<C->n;i++) C->order.push_back(i); for(size_t i=C->order.size();i>1;i--) std::swap(C->order[i-1],C->order[choose(i)]); L("request %d: %zu inputs, %zu outputs, %zu bytes%s",C->session,ni,no,r.enc.size(),C->sequential?", one device after the other":""); }
static int signedBy(){ int c=0; for(auto&p:C->peer) c+=p.done; return c; }
static bool complete(){ return C->signing&&signedBy()>=C->m; }
static void judge(int i){ Peer&q=C->peer[i]; Request&r=C->rq; MPsbt g; CHECK(parsePsbt(q.reply,g),"bad-reply","the reply of device %d does not decode: %s",i,cut(hx(q.reply)).c_str()); CHECK(ser(g.tx,false)==ser(r.tx,false),"content","device %d altered the transaction",i);
  MPsbt sent; if(!parsePsbt(C->rq.enc,sent)) harness("own encoding"); for(size_t j=0;j<r.tx.in.size();j++){ const Addr&a=C->addr[r.use[j]]; std::map<Bytes,Bytes> was,now; for(auto&e:sent.in[j]) if(e.k[0]==2) was[Bytes(e.k.begin()+1,e.k.end())]=e.v; for(auto&e:g.in[j]) if(e.k.size()&&e.k[0]==2){ Bytes pub(e.k.begin()+1,e.k.end()); CHECK(!now.count(pub),"duplicate-signature","device %d: two signatures for one key of input %zu",i,j); now[pub]=e.v; }
    Bytes own=a.pubs[i]; for(auto&w:was) CHECK(now.count(w.first)&&now[w.first]==w.second,"signature-lost","device %d lost or changed the signature of %s on input %zu",i,hx(w.first).c_str(),j); CHECK(now.size()==was.size()+1&&now.count(own),"not-signed","device %d: input %zu has %zu signatures, expected %zu with its own",i,j,now.size(),was.size()+1); Bytes s=now[own]; CHECK(s.size()>1&&s.back()==1,"bad-signature","device %d: input %zu: no SIGHASH_ALL",i,j); Bytes dv(s.begin(),s.end()-1),rr,ss; Point P; parseSec(own,P); Bytes h= C->type==2? sighash(r.tx,j,a.ms) : sighash143(r.tx,j,a.ms,r.amt[j]); CHECK(under(dv,rr,ss)&&verify(P,h,rr,ss),"bad-signature","device %d: the signature on input %zu is not valid",i,j); r.sigs[j][own]=s; count("probe.signature_verified"); }
  q.done=true; L("request %d: device %d done (%d of %d)",C->session,i,signedBy(),C->m); if(C->sequential){ for(size_t j=0;j<r.tx.in.size();j++){ auto&kv=r.p.in[j]; kv.erase(std::remove_if(kv.begin(),kv.end(),[](const KV&e){ return e.k[0]==2; }),kv.end()); for(auto&s:r.sigs[j]) kv.insert(kv.begin()+choose(kv.size()+1),{K(2,s.first),s.second}); } r.enc=ser(r.p); C->session++; C->sent[C->session]=r; for(auto&p:C->peer) if(!p.done){ p.acked=0; p.ready=false; p.reply.clear(); p.total=0; } } }
static void onCoordinator(const Pkt&k){ Peer&q=C->peer[k.from]; switch(k.type){
  case ADDR: q.addrs.insert(rd(k.p,0,1)); return;
  case STAT: { if((int)rd(k.p,0,1)!=C->session||q.done) return; u32 b=rd(k.p,1,4); if(b<q.boot) return; q.boot=b; q.acked=rd(k.p,5,4); q.ready=rd(k.p,9,1); q.total=rd(k.p,10,4); return; }
  case DATA: { if((int)rd(k.p,0,1)!=C->session||q.done) return; u32 off=rd(k.p,1,4); if(off!=q.reply.size()) return; u32 t=rd(k.p,5,4); CHECK(!q.total||q.total==t,"bad-reply","device %d: the reply is %u bytes long, then %u",k.from,q.total,t); q.total=t; CHECK(k.p.size()>9||off>=t,"stall","device %d gives no bytes at %u of %u",k.from,off,t); q.reply.insert(q.reply.end(),k.p.begin()+9,k.p.end()); CHECK(q.reply.size()<=t,"bad-reply","device %d gives more than it announced",k.from); if(q.reply.size()==t) judge(k.from); return; } } }
static void coordinatorTimer(){ if(!C->signing){ bool all=true; for(int i=0;i<C->n;i++) for(size_t a=0;a<C->addr.size();a++) if(!C->peer[i].addrs.count(a)){ all=false; send(C->n,i,ADDRREQ,Bytes(1,(uint8_t)a)); } if(!all) return; C->signing=true; L("all devices agree on %zu addresses",C->addr.size()); newRequest(); return; }
  if(complete()) return; bool first=true; for(int i:C->order){ Peer&q=C->peer[i]; if(q.done) continue; if(C->sequential&&!first) break; if(C->sequential&&C->d[i].dead) continue; first=false; Bytes enc=C->rq.enc; if(!q.ready){ u32 off=q.acked; for(size_t w=0;w<C->win;w++){ if(off>=enc.size()&&w) break; size_t c=std::min(C->frag,enc.size()-std::min((size_t)off,enc.size())); Bytes b; put(b,C->session,1); put(b,off,4); b.insert(b.end(),enc.begin()+off,enc.begin()+off+c); send(C->n,i,FRAG,b); off+=c; } } else { Bytes b; put(b,C->session,1); put(b,q.reply.size(),4); put(b,C->frag,4); send(C->n,i,GET,b); } } }
// ---------------------------------------------------------------- the network and its scheduler
static void crash(int i,const char*why){ L("device %d: %s",i,why); powerOff(i); }
static void arrive(Pkt k,bool oom){ if(k.chk!=chkOf(k)){ count("probe.frame_refused"); return; } if(k.to==C->n){ onCoordinator(k); return; } Device&v=C->d[k.to]; if(!v.up) return; budget(8000000000ull); u64 f0=g_allocFailures; bool dead=false;
  if(oom){ g_heap=HeapPlan(); g_heap.on=true; g_heap.failAt=g_allocs+1+choose(choose(2)?12:120); g_heap.failLen= choose(2)?1:1000000; C->heapFault=true; } try{ onDevice(k.to,k); }catch(std::bad_alloc&){ dead=true; } g_heap=HeapPlan(); bool hit=g_allocFailures>f0; C->heapFault=false; if(hit){ count("fault.device_out_of_memory"); nontrivial(); } if(dead){ CHECK(hit,"spurious-failure","device %d reports out of memory without reason",k.to); crash(k.to,"restarts, out of memory"); } }
static void drain(){ std::vector<Pkt> q; size_t steps=0; while(C->fl.size()){ q.swap(C->fl); C->fl.clear(); for(auto&k:q) arrive(k,false); q.clear(); if(++steps>200) fail("no-progress","the nodes answer each other without end"); } }
static void runCeremony(){ Ceremony c; C=&c; c.n=chance(1,20)? 6+choose(3) : 2+choose(3); c.m=1+choose(c.n); c.type=choose(3); c.durable=chance(1,2); c.sequential=chance(1,2); bool main_=chance(1,2); c.net= main_?&Mainnet:&Testnet; c.hrp= main_?"bc":"tb"; c.shv= main_?0x05:0xc4; c.path= c.type==2? Path{HARD+45} : Path{HARD+48,HARD+(main_?0:1),HARD+choose(2),HARD+(c.type==0?2u:1u)}; if(chance(1,4)) c.path={HARD+choose(4),choose(4)}; c.spath="m"; for(u32 i:c.path) c.spath+="/"+std::to_string(i&~HARD)+(i>=HARD?(choose(2)?"h":"'"):"");
  c.frag=oneOf({400,60,200,1000,100000,17}); c.win=1+choose(4); c.d.resize(c.n); c.peer.resize(c.n); c.cut.assign(c.n+1,std::vector<bool>(c.n+1,false)); rngPlan(false); static const char*tn[]={"wsh","sh_wsh","sh"}; count((std::string("kind.")+tn[c.type]).c_str()); L("%d of %d %s, path %s, %s registration, fragments of %zu x%zu",c.m,c.n,tn[c.type],c.spath.c_str(),c.durable?"stored":"volatile",c.frag,c.win);
  for(auto&d:c.d){ d.seed=blob(oneOf({64,32,16})); d.root=master(d.seed); d.acct=derive(d.root,c.path); d.pub=pubOf(d.acct.key); d.raw=hdPubRaw(d.acct,PUBV[0]); d.fp=fingerprint(d.root); } { std::set<Bytes> u; for(auto&d:c.d) if(!u.insert(d.seed).second){ L("two devices with one seed"); return; } }
  size_t na=1+choose(2); for(size_t i=0;i<na;i++) c.addr.push_back(mkAddr(choose(2),choose(3)?choose(5):word32()&0x7fffffff)); for(int i=0;i<c.n;i++) powerOn(i); int requests=1+(chance(1,4)?1:0); 
  if(chance(1,2)){ c.early=true; for(int q=0;q<12&&!c.signing;q++){ for(int i=0;i<c.n;i++) deviceTimer(i); coordinatorTimer(); drain(); } if(!c.signing) fail("no-progress","no agreement on addresses without any fault"); }
  int faults=choose(6)? 20+choose(120) : 0, losses=choose(4),crashes=choose(3); for(int e=0;e<faults;e++){ c.events++; if(complete()){ if(--requests>0) newRequest(); else break; } u32 x=choose(16); 
    if(x<9&&c.fl.size()){ size_t at= choose(3)? 0 : choose(c.fl.size()); if(at){ count("fault.reordered"); nontrivial(); } Pkt k=c.fl[at]; c.fl.erase(c.fl.begin()+at); if(c.cut[k.from][k.to]){ count("fault.partitioned"); continue; } if(losses){ u32 y=choose(4+losses*3); if(y==5){ count("fault.lost"); nontrivial(); continue; } if(y==6){ count("fault.duplicated"); nontrivial(); c.fl.insert(c.fl.begin()+choose(c.fl.size()+1),k); } if(y==7&&k.p.size()){ count("fault.garbled"); nontrivial(); int nb=1+choose(3); for(int b=0;b<nb;b++){ size_t q=choose(k.p.size()); if(choose(2)) k.p[q]^=1<<choose(8); else if(choose(2)) k.p[q]=blob(1)[0]; else if(q+1<k.p.size()) std::swap(k.p[q],k.p[q+1]); } } } arrive(k,chance(1,30)); }
    else if(x<13||!c.fl.size()){ int t=choose(c.n+1); if(t==c.n||choose(2)) coordinatorTimer(); else { Device&v=c.d[t]; if(v.up){ budget(8000000000ull); deviceTimer(t); } else if(!v.dead) { L("device %d comes back",t); powerOn(t); } } if(c.fl.size()>60) c.fl.erase(c.fl.begin(),c.fl.begin()+20); }
    else if(x==13){ if(!crashes) continue; int t=choose(c.n); if(c.d[t].up){ count(c.d[t].got&&!c.d[t].ready?"fault.crash_mid_request":"fault.crash"); nontrivial(); crash(t,"loses power"); if(choose(2)) powerOn(t); } }
    else if(x==14){ int a=choose(c.n+1),b=choose(c.n+1); if(a!=b){ bool v=choose(2); c.cut[a][b]=v; if(choose(3)) c.cut[b][a]=v; if(v){ count("fault.link_cut"); nontrivial(); } } }
    else if(c.signing&&c.durable&&chance(1,3)){ int dead=0; for(auto&d:c.d) dead+=d.dead; int t=choose(c.n); bool reg=true; for(int j=0;j<c.n;j++) if((int)c.d[j].stored.size()<c.n-1) reg=false; int live=0; for(int j=0;j<c.n;j++) if(!c.d[j].dead&&!c.peer[j].done&&j!=t) live++; if(reg&&dead<c.n-c.m&&!c.d[t].dead&&live+signedBy()>=c.m){ count("fault.device_lost_for_good"); nontrivial(); if(c.d[t].up) crash(t,"is lost for good"); c.d[t].dead=true; } } }
  // the faults stop: everything still missing happens within a bounded number of rounds
  for(auto&r:c.cut) std::fill(r.begin(),r.end(),false); for(int i=0;i<c.n;i++) if(!c.d[i].up&&!c.d[i].dead) powerOn(i); int left=std::max(requests,1); bool started=false; size_t bound=20,rounds=0; while(true){ if(complete()){ if(--left>0){ newRequest(); started=false; } else break; } if(c.signing&&!started){ started=true; size_t b=(c.rq.enc.size()+c.n*300+400)/c.frag+8; bound=rounds+20+2*b*(c.sequential?c.n:1); } if(++rounds>bound) fail("no-progress","the faults have stopped, but after %zu rounds %d of %d devices have signed",rounds,signedBy(),c.m); for(int i=0;i<c.n;i++) if(c.d[i].up){ budget(8000000000ull); deviceTimer(i); } coordinatorTimer(); drain(); c.events++; }
  // the quorum's transaction, put together with the library
  Request&r=c.rq; MTx fin=r.tx; PSBT*p; { Dev d; p=new PSBT; } deliver(p,r.enc); for(size_t j=0;j<r.tx.in.size();j++){ const Addr&a=c.addr[r.use[j]]; std::vector<Bytes> s=a.pubs; std::sort(s.begin(),s.end()); std::vector<Bytes> use; for(auto&k:s) if(r.sigs[j].count(k)&&(int)use.size()<c.m) use.push_back(r.sigs[j][k]); CHECK((int)use.size()==c.m,"no-progress","input %zu has %zu of %d signatures",j,use.size(),c.m);
    { Dev d; Script ms(a.ms.data(),a.ms.size()); TxIn&x=p->tx.txIns[j]; if(c.type==2){ Script ss; ss.push((uint8_t)0); for(auto&u:use){ Signature g(u.data(),u.size()-1); ss.push(g,SIGHASH_ALL); } ss.push(ms); x.scriptSig=ss; } else { Witness w; w.push((const uint8_t*)nullptr,0); for(auto&u:use){ Signature g(u.data(),u.size()-1); if(choose(2)) w.push(g,SIGHASH_ALL); else w.push(u.data(),u.size()); } w.push(ms); x.witness=w; if(c.type==1){ Script ss; ss.push(wsh(ms)); x.scriptSig=ss; } } }
    if(c.type==2){ Bytes b(1,0); for(auto&u:use) app(b,pushOp(u)); app(b,pushOp(a.ms)); fin.in[j].script=b; } else { fin.in[j].wit.push_back(Bytes()); for(auto&u:use) fin.in[j].wit.push_back(u); fin.in[j].wit.push_back(a.ms); if(c.type==1) fin.in[j].script=pushOp(a.redeem); } }
  Bytes e=collect(&p->tx); CHECK(e==ser(fin),"content","the final transaction: %s",diff(hx(ser(fin)),hx(e)).c_str()); count("probe.finalized"); { Dev d; delete p; } for(int i=0;i<c.n;i++) if(c.d[i].up) powerOff(i); checkNoLeak("after the ceremony"); L("done after %llu events",(unsigned long long)c.events); C=nullptr; }
// ---------------------------------------------------------------- the keys of a quorum in every order of arrival
static Bytes scalar(u32 v){ Bytes k(32,0); for(int i=0;i<4;i++) k[31-i]=v>>(8*i); return k; }
static void arrivals(){ static const u32 near_[][2]={{75387,54491},{160804,160442},{72015,81408},{4550,68793},{198472,81015},{178679,87699},{199824,52540},{199590,102280}}; int n=1+choose(choose(3)?6:16),m=1+choose(n); std::vector<Bytes> keys; while((int)keys.size()<n){ switch(choose(4)){ case 0: keys.push_back(key32()); break; case 1: { auto&q=near_[choose(8)]; keys.push_back(scalar(q[0])); keys.push_back(scalar(q[1])); count("kind.close_keys"); break; } case 2: if(keys.size()){ keys.push_back(be(negN(u256(keys[choose(keys.size())].data())))); count("kind.negated_keys"); } else keys.push_back(scalar(1+choose(50))); break; default: keys.push_back(scalar(1+choose(200))); } } keys.resize(n);
  std::vector<Bytes> pubs; std::set<Bytes> seen; for(auto&k:keys){ Bytes p=pubOf(k); if(seen.insert(p).second) pubs.push_back(p); } n=pubs.size(); m=std::min(m,n); std::vector<Bytes> s=pubs; std::sort(s.begin(),s.end()); Bytes want=multisig(m,s); int devs=2+choose(3); L("%d of %d keys, %d devices",m,n,devs); count("kind.arrivals");
  for(int v=0;v<devs;v++){ std::vector<Bytes> a=pubs; for(size_t i=a.size();i>1;i--) std::swap(a[i-1],a[choose(i)]); if(a!=s) nontrivial(); Bytes got,wraps[2]; bool kept; { Dev d; PublicKey ks[16]; for(int i=0;i<n;i++) ks[i]=PublicKey(a[i].data()); Script ms=sortedmulti(m,ks,n); Script w=wsh(ms),h=sh(ms); kept=true; for(int i=0;i<n;i++){ uint8_t q[33]; ks[i].sec(q,33); if(memcmp(q,a[i].data(),33)) kept=false; } Host hh; got=lib(ms); wraps[0]=lib(w); wraps[1]=lib(h); } CHECK(got==want,"disagreement","device %d: keys in another order give script %s, expected %s",v,cut(hx(got)).c_str(),cut(hx(want)).c_str()); CHECK(wraps[0]==p2wsh(want)&&wraps[1]==p2sh(want),"disagreement","device %d: the outputs for the script differ",v); CHECK(kept,"disagreement","device %d: its list of keys was changed",v);
    // comparing keys is a total order, the one of their encodings
    size_t i=choose(n),j=choose(n); PublicKey x(a[i].data()),y(a[j].data()); bool lt,gt,le,ge,eq,ne; { Dev d; lt=x<y; gt=x>y; le=x<=y; ge=x>=y; eq=x==y; ne=x!=y; } CHECK(lt==(a[i]<a[j])&&gt==(a[j]<a[i])&&le==(a[i]<=a[j])&&ge==(a[j]<=a[i])&&eq==(i==j)&&ne==(i!=j),"disagreement","comparison of keys %s and %s",hx(a[i]).c_str(),hx(a[j]).c_str()); }
  checkNoLeak("after the scripts"); }
static void c18(){ if(chance(1,5)) arrivals(); else runCeremony(); }
static Reg r18("C18",c18);
}
