// C08 (PSBT signing sessions), C13 (Electrum signing sessions), C09 (power loss during a session).
#include "world.h"
#include <string.h>
#include <algorithm>
#include <map>
#include <set>
namespace sim {
using namespace ref;
Bytes keyNum();
typedef std::vector<u32> Path;
static const u32 HARD=0x80000000u;
static Bytes K(int t,const Bytes&rest=Bytes()){ Bytes k(1,(uint8_t)t); app(k,rest); return k; }
static std::string pstr(const Path&p){ std::string s="m"; for(u32 i:p) s+="/"+std::to_string(i&~HARD)+(i>=HARD?"h":""); return s; }

// ---------------------------------------------------------------- wallets
struct Wallet{ HD hd; Bytes fp; bool fromSeed=false; Bytes seed; };
static Wallet genWallet(){ Wallet w; if(chance(1,2)){ w.fromSeed=true; w.seed=blob(oneOf({64,32,16})); w.hd=master(w.seed); } else { w.hd.key=keyNum(); w.hd.cc=blob(32); w.hd.depth=choose(3)?0:chance(1,4)?choose(220):choose(6); w.hd.pfp=w.hd.depth?blob(4):Bytes(4,0); w.hd.child=w.hd.depth?word32():0; } w.fp=fingerprint(w.hd); return w; }
static HDPrivateKey libKey(const Wallet&w){ if(w.fromSeed){ HDPrivateKey k; k.fromSeed(w.seed.data(),w.seed.size()); return k; } return HDPrivateKey(w.hd.key.data(),w.hd.cc.data(),w.hd.depth,w.hd.pfp.data(),w.hd.child); }
struct Paths{ bool only=false;  std::vector<Path> acc; }; // accounts reused within a session, so that cached account keys get hit, missed and confused
static Path genPath(Paths&ps){ Path p; int how= ps.only? 0 : choose(8);
  if(how<=2&&ps.acc.size()) p=ps.acc[choose(ps.acc.size())];
  else if(how<=4){ u32 purpose=oneOf({84,44,49,48,45,86}); p={HARD+purpose,HARD+choose(2),HARD+choose(3)}; if(purpose==48&&choose(2)) p.push_back(HARD+1+choose(2)); ps.acc.push_back(p); }
  else if(how==5&&ps.acc.size()){ p=ps.acc[choose(ps.acc.size())]; if(choose(2)){ if(p.size()) p.pop_back(); } else if(p.size()) p.back()^=1; } // neighbour of an account
  else if(how==6){ size_t n= chance(1,6)? 5+choose(9) : choose(4); for(size_t i=0;i<n;i++) p.push_back(HARD+choose(3)); ps.acc.push_back(p); }
  else if(how==7){ p.push_back(choose(3)); if(choose(2)) p.push_back(HARD+choose(3)); } // hardened steps only after a normal one
  size_t t=choose(8)? 2 : choose(5); if(chance(1,40)) t=oneOf({0,0,9,14}); if(chance(1,60)) p.clear(); for(size_t i=0;i<t;i++) p.push_back(choose(6)? choose(4) : word32()); return p; }

// ---------------------------------------------------------------- PSBT sessions
struct SKey{ Bytes pub; int owner=-1; Path path; Bytes key; };          // one key of an input; owner: wallet index or -1
struct SEntry{ Bytes pub,fp; Path path; std::set<int> signs; };          // one derivation entry; signs: wallets that must sign for it
struct SIn{ int type; u64 amt; Bytes spk,redeem,wscript,code; bool segwit; std::vector<SKey> keys; std::vector<SEntry> ent; std::map<Bytes,Bytes> pre; };
struct SOut{ std::vector<SEntry> ent; };
struct Session{ std::vector<Wallet> w; MTx tx; std::vector<SIn> in; std::vector<SOut> out; Bytes enc; bool allAmounts=true; };
static const char*tyName[]={"p2pkh","p2wpkh","p2sh_p2wpkh","p2sh_multi","p2wsh_multi","p2sh_p2wsh_multi","bare_multi","p2wsh_single","p2sh_single","p2pk"};
static SKey genKey(std::vector<Wallet>&w,Paths&ps,int owner){ SKey k; k.owner=owner; if(owner>=0){ k.path=genPath(ps); HD h=derive(w[owner].hd,k.path); k.key=h.key; } else { k.key=key32(); k.path=genPath(ps); } k.pub=pubOf(k.key); return k; }
static Bytes sighashOf(const Session&s,size_t i){ const SIn&x=s.in[i]; return x.segwit? sighash143(s.tx,i,x.code,x.amt) : sighash(s.tx,i,x.code); }
static Session genSession(bool small){ Session s; Paths ps; bool spend=!small&&chance(1,5); // spend: an ordinary wallet spending several coins of a few accounts
  size_t nw= spend? 1 : 1+choose(3); if(spend){ count("kind.few_accounts"); u32 pu=oneOf({84,44,49}); for(u32 a=0;a<2+choose(2);a++) ps.acc.push_back({HARD+pu,HARD,HARD+a}); ps.only=true; } for(size_t i=0;i<nw;i++) s.w.push_back(genWallet());
  s.tx.ver=choose(2)?2:word32(); s.tx.lock=choose(2)?0:word32(); size_t ni= spend? 3+choose(4) : !small&&chance(1,40)? oneOf({8,20,40}) : 1+choose(small?2:4); bool lite=spend||ni>4; size_t no= !small&&chance(1,40)? oneOf({10,60}) : choose(chance(1,4)?7:4); std::vector<std::vector<KV>> secs; u64 total=0; std::vector<MTx> prev;
  for(size_t i=0;i<ni;i++){ SIn x; x.type= lite? choose(3) : choose(10); count((std::string("kind.")+tyName[x.type]).c_str()); x.amt= 1+choose(100000)+ (choose(3)?0:(u64)choose(1u<<20)*1000000ull); if(chance(1,12)) x.amt=oneOf({0,1,0xffffffffu,0x100000000ull,2100000000000000ull,1ull<<53,(1ull<<60)+12345,1ull<<63}); if(total+x.amt<total) x.amt=7; if(!x.amt) s.allAmounts=false; total+=x.amt;
    int ow= choose(4)? (int)choose(nw) : -1; bool multi=x.type>=3&&x.type<=6; size_t nk= multi? (!small&&ni<3&&chance(1,25)? oneOf({7,11,15,16}) : 1+choose(4)) : 1; for(size_t j=0;j<nk;j++) x.keys.push_back(genKey(s.w,ps, multi? (choose(3)? (int)choose(nw):-1) : ow));
    std::vector<Bytes> pubs; for(auto&k:x.keys) pubs.push_back(k.pub); Bytes ms= multi? multisig(1+choose(nk),pubs) : Bytes(); Bytes h=hash160(x.keys[0].pub); Bytes single; single.push_back(33); app(single,x.keys[0].pub); single.push_back(0xac);
    if(x.type==7||x.type==8){ if(choose(2)){ Bytes pad; size_t n=oneOf({1,70,180,217,218,219,220,300}); if(n<=75){ pad.push_back(n); } else if(n<=255){ pad={0x4c,(uint8_t)n}; } else pad={0x4d,(uint8_t)(n&255),(uint8_t)(n>>8)}; app(pad,blob(n)); pad.push_back(0x75); app(pad,single); single=pad; } }
    if(x.type>=7&&chance(1,4)){ count("probe.odd_script"); Bytes g=blob(20); switch(choose(5)){ case 0: single={0x61,0x14}; app(single,g); break; case 1: single={0x61,0x20}; app(single,blob(32)); break; case 2: single=p2pkh(g); single[1]=0xaa; break; case 3: single={0x14}; app(single,g); single.push_back(0x87); if(choose(2)) single.push_back(0x61); break; default: single=Bytes(1+choose(40),0x61); single.back()=0x51; } } // near-standard and keyless scripts
    switch(x.type){ case 0: x.spk=p2pkh(h); x.code=x.spk; x.segwit=false; break; case 1: x.spk=p2wpkh(h); x.code=p2pkh(h); x.segwit=true; break; case 2: x.redeem=p2wpkh(h); x.spk=p2sh(x.redeem); x.code=p2pkh(h); x.segwit=true; break;
      case 3: x.redeem=ms; x.spk=p2sh(ms); x.code=ms; x.segwit=false; break; case 4: x.wscript=ms; x.spk=p2wsh(ms); x.code=ms; x.segwit=true; break; case 5: x.wscript=ms; x.redeem=p2wsh(ms); x.spk=p2sh(x.redeem); x.code=ms; x.segwit=true; break; case 6: x.spk=ms; x.code=ms; x.segwit=false; break;
      case 7: x.wscript=single; x.spk=p2wsh(single); x.code=single; x.segwit=true; break; case 8: x.redeem=single; x.spk=p2sh(single); x.code=single; x.segwit=false; break; default: x.spk=single; x.code=single; x.segwit=false; }
    // derivation entries, true and misleading
    for(auto&k:x.keys){ SEntry e; e.pub=k.pub; e.path=k.path; int lie= chance(1,spend?20:4)? 1+choose(5) : 0; if(k.owner<0) e.fp= choose(2)? blob(4) : s.w[choose(nw)].fp; else e.fp=s.w[k.owner].fp;
      if(k.owner>=0){ if(lie==1){ e.fp[choose(4)]^=1<<choose(8); count("fault.wrong_fingerprint"); } else if(lie==2){ size_t at=e.path.size()?choose(e.path.size()):0; if(e.path.size()) e.path[at]^=1<<choose(31); else e.path.push_back(0); count("fault.wrong_path"); } else if(lie==3){ e.path.push_back(choose(3)); count("fault.wrong_path"); } else if(lie==4&&nw>1){ e.fp=s.w[(k.owner+1)%nw].fp; count("fault.wrong_wallet"); } else if(lie==5){ e.pub[0]^=1; count("fault.negated_key"); } }
      x.ent.push_back(e); if(chance(1,10)&&x.type!=1&&x.type!=2){ SKey d=genKey(s.w,ps,choose(2)?(int)choose(nw):-1); SEntry f; f.pub=d.pub; f.path=d.path; f.fp= d.owner>=0? s.w[d.owner].fp : blob(4); x.ent.push_back(f); } if(lite) break; }
    if(x.ent.size()>1&&chance(1,3)) std::rotate(x.ent.begin(),x.ent.begin()+choose(x.ent.size()),x.ent.end());
    if(chance(1,15)) x.ent.clear();
    // who must sign: decided from fingerprint, path and public key alone
    for(auto&e:x.ent) for(size_t j=0;j<nw;j++) if(e.fp==s.w[j].fp && pubOf(derive(s.w[j].hd,e.path).key)==e.pub) e.signs.insert(j);
    // previous transaction / utxo
    MIn in; in.seq=choose(2)?0xffffffff:word32(); bool wantPrev= !x.segwit||chance(1,3); MTx pv; if(wantPrev){ GenOpt q; q.big=false; q.maxIn=2; q.maxOut=2; pv=genTx(q,2); size_t at=choose(pv.out.size()+1); pv.out.insert(pv.out.begin()+at,MOut{x.amt,x.spk}); in.hash=txhash(pv); in.idx=at; } else { in.hash=blob(32); in.idx=word32(); } prev.push_back(pv); s.tx.in.push_back(in); s.in.push_back(x); }
  u64 left=total; for(size_t i=0;i<no;i++){ MOut o; o.amt= left? (choose(8)? left/(1+choose(10)) : left) : 0; if(chance(1,25)) o.amt=total+1+choose(1000); if(chance(1,60)) o.amt=~0ull-choose(2)*total-choose(3); left-= std::min(left,o.amt); GenOpt g; g.big=false; o.spk= lite? Bytes(22,(uint8_t)i) : genScript(g); SOut so;
    if(!lite&&chance(1,2)){ int n=1+choose(2); for(int j=0;j<n;j++){ SEntry e; int wi=choose(nw); e.path=genPath(ps); if(choose(2)) for(auto&v:e.path) v&=~HARD; if(choose(3)==0&&e.path.size()>3) e.path.resize(2); e.fp=s.w[wi].fp; HD hd=derive(s.w[wi].hd,e.path); e.pub=pubOf(hd.key);
        switch(choose(9)){ case 8: e.pub[0]^=1; count("fault.change_negated_key"); break; case 0: e.pub=pubOf(key32()); count("fault.change_wrong_key"); break; case 1: e.fp=blob(4); break; case 2: if(e.path.size()) e.path[choose(e.path.size())]^=1; count("fault.change_wrong_path"); break;
          case 3: { // a key the sender computed from the public wallet data alone, as if hardened steps were public
            HD h=s.w[wi].hd; Path p={HARD+choose(3)}; Bytes cur=pubOf(h.key),cc=h.cc; Point pt; parseSec(cur,pt); Bytes d=cur; for(int b=3;b>=0;b--) d.push_back(p[0]>>(8*b)); Bytes I=hmac512(cc,d); U256 il=u256(I.data()); Point q=ref::add(mulG(modN(il)),pt); e.path=p; e.pub=sec(q,true); count("fault.change_pseudo_hardened"); break; }
          case 4: { // continue from the empty key: everything is known to the sender
            Path p={HARD+choose(3)}; Bytes zc(32,0); Bytes z(33,0); z[0]=2; u32 idx=choose(3); p.push_back(idx); Bytes d=z; for(int b=3;b>=0;b--) d.push_back(idx>>(8*b)); Bytes I=hmac512(zc,d); e.path=p; e.pub=sec(mulG(modN(u256(I.data()))),true); count("fault.change_empty_key"); break; }
          default: break; }
        so.ent.push_back(e); } }
    s.tx.out.push_back(o); s.out.push_back(so); }
  // already present signatures
  for(size_t i=0;i<ni;i++) for(auto&k:s.in[i].keys) if(chance(1,6)){ Bytes h=sighashOf(s,i); Ecdsa e= k.owner<0&&chance(1,3)? Ecdsa{be(modN(u256(sha256(blob(4)).data()))),be(modN(u256(sha256(blob(4)).data()))),0} : sign(k.key,h); Bytes v=der(e.r,e.s); bool odd=k.owner<0&&chance(1,4); v.push_back(odd? oneOf({2,3,0x81,0x82,0x83,0}) : 1); if(odd) count("probe.presigned_other_sighash"); Bytes pub=k.pub; if(chance(1,8)){ pub[0]^=1; count("fault.presigned_negated_key"); } s.in[i].pre[pub]=v; count("probe.presigned"); }
  MPsbt p; p.tx=s.tx; for(size_t i=0;i<ni;i++){ SIn&x=s.in[i]; std::vector<KV> kv; bool hp=prev[i].in.size(); bool wu= x.segwit&&(!hp||chance(1,2)); if(hp) kv.push_back({K(0),ser(prev[i])}); if(wu) kv.push_back({K(1),ser(MOut{x.amt,x.spk})}); for(auto&g:x.pre) kv.push_back({K(2,g.first),g.second}); if(chance(1,6)) kv.push_back({K(3),Bytes{1,0,0,0}}); if(x.redeem.size()) kv.push_back({K(4),x.redeem}); if(x.wscript.size()) kv.push_back({K(5),x.wscript}); std::set<Bytes> seen; std::vector<SEntry> keep; for(auto&e:x.ent) if(seen.insert(e.pub).second){ Bytes v=e.fp; for(u32 q:e.path) put(v,q,4); kv.push_back({K(6,e.pub),v}); keep.push_back(e); } x.ent=keep; if(chance(1,6)) kv.push_back({K(9+choose(200),blob(choose(4))),blob(choose(40))});
    if(kv.size()>1&&chance(1,2)) std::rotate(kv.begin(),kv.begin()+choose(kv.size()),kv.end()); if(kv.size()>1&&chance(1,3)) std::swap(kv[choose(kv.size())],kv[choose(kv.size())]); p.in.push_back(kv); }
  for(size_t i=0;i<no;i++){ std::vector<KV> kv; std::set<Bytes> seen; std::vector<SEntry> keep; for(auto&e:s.out[i].ent) if(seen.insert(e.pub).second){ Bytes v=e.fp; for(u32 q:e.path) put(v,q,4); kv.push_back({K(2,e.pub),v}); keep.push_back(e); } s.out[i].ent=keep; if(chance(1,8)) kv.push_back({K(0),blob(choose(30))}); if(chance(1,8)) kv.push_back({K(5),blob(choose(30))}); p.out.push_back(kv); }
  if(chance(1,8)) p.global.push_back({K(1+choose(200),blob(choose(4))),blob(choose(80))});
  s.enc=ser(p); for(size_t i=0;i<ni;i++){ std::string o; for(auto&e:s.in[i].ent){ o+=" ["+hx(e.fp)+" "+pstr(e.path)+" "+hx(e.pub).substr(0,10)+" signers"; for(int j:e.signs) o+=" "+std::to_string(j); o+="]"; } L("input %zu: %s amount %llu%s%s",i,tyName[s.in[i].type],(unsigned long long)s.in[i].amt,o.c_str(),s.in[i].pre.size()?" presigned":""); }
  return s; }
// the signatures that must be present, given which wallets have signed; judged on the emitted bytes
struct Judged{ u32 fresh=0,over=0; };                                   // own signatures present: new ones, ones for keys that had one already
static Judged judgeReply(const Session&s,const Bytes&out,const std::set<int>&signers,bool partial=false){ Judged J; MPsbt p; CHECK(parsePsbt(out,p),"bad-reply","the emitted PSBT does not decode: %s",cut(hx(out)).c_str()); CHECK(ser(p.tx,false)==ser(s.tx,false),"tx-altered","the transaction was altered: %s",diff(hx(ser(s.tx,false)),hx(ser(p.tx,false))).c_str());
  for(size_t i=0;i<s.in.size();i++){ const SIn&x=s.in[i]; std::map<Bytes,Bytes> got; for(auto&e:p.in[i]) if(e.k.size()&&e.k[0]==2){ Bytes pub(e.k.begin()+1,e.k.end()); CHECK(!got.count(pub),"duplicate-signature","input %zu: two signatures for one key",i); got[pub]=e.v; }
    std::set<Bytes> want; for(auto&e:x.ent) for(int j:e.signs) if(signers.count(j)) want.insert(e.pub);
    for(auto&pr:x.pre) if(!want.count(pr.first)){ CHECK(got.count(pr.first),"signature-lost","input %zu: the signature of %s that was there is gone",i,hx(pr.first).c_str()); CHECK(got[pr.first]==pr.second,"signature-changed","input %zu: the signature of %s that was there was changed",i,hx(pr.first).c_str()); got.erase(pr.first); }
    Bytes h; for(auto&w:want){ auto it=got.find(w); if(partial&&it==got.end()&&!x.pre.count(w)) continue; (x.pre.count(w)?J.over:J.fresh)++; CHECK(it!=got.end(),"not-signed","input %zu (%s): no signature for own key %s",i,tyName[x.type],hx(w).c_str()); if(h.empty()) h=sighashOf(s,i); Bytes v=it->second; CHECK(v.size()>1&&v.back()==1,"bad-signature","input %zu: signature does not end in SIGHASH_ALL",i); v.pop_back(); Bytes r,ss; CHECK(under(v,r,ss),"bad-signature","input %zu: signature is not strict DER: %s",i,hx(v).c_str()); Point P; parseSec(w,P); CHECK(verify(P,h,r,ss),"bad-signature","input %zu (%s): signature of %s is not valid for this input",i,tyName[x.type],hx(w).c_str()); got.erase(it); count("probe.signature_verified"); }
    CHECK(got.empty(),"unwanted-signature","input %zu: %zu signatures for keys that are not the wallet's",i,got.size()); } return J; }
static void deliverB64(PSBT&p,const Bytes&enc){ static const char*a="ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; std::string t; for(size_t i=0;i<enc.size();i+=3){ u32 v=enc[i]<<16|(i+1<enc.size()?enc[i+1]:0)<<8|(i+2<enc.size()?enc[i+2]:0); t+=a[v>>18]; t+=a[v>>12&63]; t+= i+1<enc.size()? a[v>>6&63]:'='; t+= i+2<enc.size()? a[v&63]:'='; } { Dev d; p.parseBase64(t); } CHECK(p.getStatus()==PARSING_DONE,"spurious-failure","well-formed PSBT rejected in base64"); count("kind.base64"); }
static Bytes unB64(const std::string&t){ Bytes o; u32 v=0; int n=0; for(char c:t){ int d; if(c>='A'&&c<='Z') d=c-'A'; else if(c>='a'&&c<='z') d=c-'a'+26; else if(c>='0'&&c<='9') d=c-'0'+52; else if(c=='+') d=62; else if(c=='/') d=63; else break; v=v<<6|d; if(++n==4){ o.push_back(v>>16); o.push_back(v>>8); o.push_back(v); n=0; v=0; } } if(n==3){ o.push_back(v>>10); o.push_back(v>>2); } else if(n==2) o.push_back(v>>4); return o; }
static void c08(){ Session s=genSession(false); size_t nw=s.w.size(); std::set<int> done; rngPlan(chance(1,3)); int rounds=1+choose(3); PSBT*p; { Dev d; p=new PSBT; } std::map<Bytes,Bytes> carried;
  bool merged=false; for(auto&x:s.in) for(auto&e:x.ent) if(e.signs.empty()) nontrivial();
  if(chance(1,8)) deliverB64(*p,s.enc); else deliver(p,s.enc);
  // what is shown for confirmation
  { unsigned __int128 in=0,out=0; for(auto&x:s.in) in+=x.amt; for(auto&o:s.tx.out) out+=o.amt; u64 want= s.allAmounts&&in>=out? (u64)(in-out) : 0; u64 got; { Dev d; got=p->fee(); } CHECK(got==want,"wrong-fee","fee shown %llu, inputs %llu outputs %llu (%s)",(unsigned long long)got,(unsigned long long)in,(unsigned long long)out,out>>64?"more than 64 bits":"all of it"); }
  auto ownership=[&](const char*when){ for(size_t i=0;i<s.out.size();i++) if(s.out[i].ent.size()&&(i<6)){ int wi=choose(nw); HDPrivateKey k; { Dev d; k=libKey(s.w[wi]); } bool want=false,wantPub=false; for(auto&e:s.out[i].ent){ bool lead=pubOf(derive(s.w[wi].hd,e.path).key)==e.pub; bool hard=false; for(u32 v:e.path) if(v>=HARD) hard=true; want|=lead; wantPub|=lead&&!hard; }
      bool viaPub=choose(2); bool got; budget(600000000ull); { Dev d; got= viaPub? p->isMine(i,k.xpub()) : p->isMine(i,k); } L("output %zu mine for wallet %d by %s: %d",i,wi,viaPub?"xpub":"xprv",got); count(got?"probe.mine":"probe.not_mine"); CHECK(got==(viaPub?wantPub:want),"wrong-ownership","%s: output %zu reported %s for wallet %d (%s)",when,i,got?"mine":"not mine",wi,viaPub?"xpub":"xprv"); } };
  ownership("before signing");
  for(int r=0;r<rounds;r++){ int wi=choose(nw); u32 total=0,fresh=0; for(auto&x:s.in) for(auto&e:x.ent) if(e.signs.count(wi)){ total++; bool have=x.pre.count(e.pub); for(int j:e.signs) if(done.count(j)) have=true; if(!have) fresh++; } if(r) nontrivial();
    if(r&&chance(1,3)){ // the host merges what it has got and sends the PSBT to another device
      Bytes out=collect(p); MPsbt q; CHECK(parsePsbt(out,q),"bad-reply","the emitted PSBT does not decode"); MPsbt full; if(!parsePsbt(s.enc,full)) harness("own encoding"); for(size_t i=0;i<s.in.size();i++){ auto&v=full.in[i]; v.erase(std::remove_if(v.begin(),v.end(),[](const KV&k){ return k.k[0]==2; }),v.end()); for(auto&e:q.in[i]) if(e.k[0]==2) v.push_back(e); } { Dev d; delete p; p=new PSBT; } deliver(p,ser(full)); merged=true; count("sched.merged_and_resent"); }
    budget(4000000000ull); uint8_t n; bool viaCopy=chance(1,8); { Dev d; HDPrivateKey k=libKey(s.w[wi]); if(viaCopy){ PSBT c=*p; n=c.sign(k); *p=c; } else n=p->sign(k); } L("wallet %d signs: %u (expected %u, %u new)",wi,n,total,fresh); done.insert(wi); CHECK(n<=total&&n>=fresh,"wrong-count","sign() reports %u signatures, wallet %d owns %u entries (%u not signed yet)",n,wi,total,fresh); if(total) count("probe.signed"); else count("probe.nothing_to_sign");
    if(r+1==rounds||chance(1,3)){ Bytes out; if(chance(1,8)){ std::string t; { Dev d; t=p->toBase64(); } out=unB64(t); } else out=collect(p); judgeReply(s,out,done); } }
  (void)merged; if(chance(1,3)) ownership("after signing"); CHECK(dumpL(p->tx)==dumpM(s.tx,true),"tx-altered","the transaction held was altered"); { Dev d; delete p; } checkNoLeak("after the session"); }
static Reg r08("C08",c08);
struct PObj: Obj{ PSBT v; Streamable*s()override{ return &v; } std::string dump()override{ return dumpL(v); } };
struct EObj: Obj{ ElectrumTx v; Streamable*s()override{ return &v; } std::string dump()override{ return dumpL(v); } };
static EModel genE(Wallet&acc,std::vector<int>&own,std::vector<int>&nested,u64&tin,u64&tout,bool&known);
Obj*signedObject(){ rngPlan(chance(1,4)); if(chance(2,3)){ Session s=genSession(chance(2,3)); PObj*o; { Dev d; o=new PObj; } deliver(&o->v,s.enc); size_t n=1+choose(2); for(size_t i=0;i<n;i++){ int wi=choose(s.w.size()); uint8_t c; budget(4000000000ull); { Dev d; HDPrivateKey k=libKey(s.w[wi]); c=o->v.sign(k); } L("wallet %d signed %u",wi,c); if(c) nontrivial(); } return o; }
  std::vector<int> own,nested; u64 a=0,b=0; bool known; Wallet acc=genWallet(); EModel e=genE(acc,own,nested,a,b,known); EObj*o; { Dev d; o=new EObj; } deliver(&o->v,electrumEnc(e)); uint8_t c; budget(4000000000ull); { Dev d; HDPrivateKey k=libKey(acc); c=o->v.sign(k); } L("account signed %u",c); if(c) nontrivial(); return o; }

// ---------------------------------------------------------------- Electrum sessions
static Bytes pushData(const Bytes&b){ Bytes o(1,(uint8_t)b.size()); app(o,b); return o; }
static bool readPush(const Bytes&s,size_t&p,Bytes&o){ if(p>=s.size()) return false; size_t n=s[p++]; if(n==0||n>75||p+n>s.size()) return false; o.assign(s.begin()+p,s.begin()+p+n); p+=n; return true; }
static EModel genE(Wallet&acc,std::vector<int>&own,std::vector<int>&nested,u64&tin,u64&tout,bool&known){ if(acc.hd.depth>250) acc.hd.depth=3; EModel e; e.segwit=chance(1,2); bool tb=chance(1,3); MTx t; t.ver=choose(2)?2:word32(); t.lock=choose(2)?0:word32(); size_t ni= chance(1,40)? oneOf({5,6,7,30}) : 1+choose(4); size_t no=choose(4); tin=tout=0; known=e.segwit;
  for(size_t i=0;i<ni;i++){ MIn x; x.hash=blob(32); x.idx=word32(); x.seq=choose(2)?0xfffffffe:word32(); int o= ni>10? i%3==0 : choose(3)>0; bool ne=chance(1,2); HD who=acc.hd; if(!o){ nontrivial(); switch(choose(5)){ case 4: who.cc=blob(32); if(who.cc==acc.hd.cc) who.cc[0]^=1; count("fault.other_chaincode"); break; case 0: who.key=be(negN(u256(acc.hd.key.data()))); count("fault.negated_account"); break; case 1: who=ckd(acc.hd,choose(3)); count("fault.child_account"); break; case 2: who=genHD(); break; default: who.key=key32(); count("fault.same_chaincode"); } }
    if(who.key==acc.hd.key&&who.cc==acc.hd.cc) o=1; MEIn m; const uint8_t*ver=PUBV[(tb?5:0)+(e.segwit?(ne?1:2):0)]; if(!o&&chance(1,4)) ver=PUBV[choose(10)]; m.xpub78=hdPubRaw(who,ver); m.d[0]= choose(4)? choose(2):choose(65536); m.d[1]= choose(4)? choose(20): choose(65536); m.amt= e.segwit? (chance(1,12)? oneOf({0,1,0xffffffffu,0x100000000ull,2100000000000000ull}) : 1+choose(1u<<30)) : 0; if(!m.amt) known=false; tin+=m.amt; if(e.segwit&&(ne||chance(1,8))) x.script= chance(1,3)? Bytes() : pushData(p2wpkh(blob(20))); own.push_back(o); nested.push_back(ne); t.in.push_back(x); e.in.push_back(m); L("input %zu: %s %s %u/%u amount %llu",i,o?"own":"foreign",e.segwit?(ne?"nested":"native"):"legacy",m.d[0],m.d[1],(unsigned long long)m.amt); }
  for(size_t i=0;i<no;i++){ GenOpt g; g.big=false; MOut o=genOut(g); o.amt= chance(1,20)? tin+1 : (tin? tin/(1+choose(8))/ (no?no:1) : choose(100000)); if(chance(1,60)) o.amt=~0ull-choose(2)*tin-choose(3); tout+=o.amt; t.out.push_back(o); } e.tx=t; return e; }
// the emitted transaction; partial: the account's inputs may be left unsigned. Returns the number of complete signatures
static u32 judgeE(const Wallet&acc,const EModel&e,const std::vector<int>&own,const std::vector<int>&nested,const Bytes&out,bool partial=false){ const MTx&t=e.tx; size_t ni=t.in.size(); u32 done=0;
  MTx g; size_t pos=0; CHECK(parseTx(out,pos,g)&&pos==out.size(),"bad-reply","the emitted transaction does not decode: %s",cut(hx(out)).c_str());
  CHECK(g.ver==t.ver&&g.lock==t.lock&&g.in.size()==t.in.size()&&g.out.size()==t.out.size(),"tx-altered","version, locktime or counts changed"); for(size_t i=0;i<t.out.size();i++) CHECK(g.out[i].amt==t.out[i].amt&&g.out[i].spk==t.out[i].spk,"tx-altered","output %zu changed",i);
  for(size_t i=0;i<ni;i++){ const MIn&a=g.in[i]; CHECK(a.hash==t.in[i].hash&&a.idx==t.in[i].idx&&a.seq==t.in[i].seq,"tx-altered","input %zu changed",i); if(!own[i]){ CHECK(a.wit.empty()&&a.script==(e.segwit?t.in[i].script:Bytes()),"foreign-input-touched","input %zu is not the account's but was changed",i); continue; }
    HD c=ckd(ckd(acc.hd,e.in[i].d[0]),e.in[i].d[1]); Bytes pub=pubOf(c.key),h20=hash160(pub); if(partial&&a.wit.empty()&&(a.script.empty()||(e.segwit&&(a.script==t.in[i].script||a.script==pushData(p2wpkh(h20)))))) continue; done++; Bytes sg,pk; Bytes h; if(!e.segwit){ size_t q=0; CHECK(a.wit.empty()&&readPush(a.script,q,sg)&&readPush(a.script,q,pk)&&q==a.script.size(),"bad-signature","input %zu: scriptSig is not <signature> <key>: %s",i,hx(a.script).c_str()); MTx b=t; h=sighash(b,i,p2pkh(h20)); }
    else { CHECK(a.wit.size()==2,"bad-signature","input %zu: witness has %zu elements",i,a.wit.size()); sg=a.wit[0]; pk=a.wit[1]; CHECK(a.script==(nested[i]? pushData(p2wpkh(h20)) : Bytes()),"bad-signature","input %zu: scriptSig %s does not fit the %s key",i,hx(a.script).c_str(),nested[i]?"nested":"native"); h=sighash143(t,i,p2pkh(h20),e.in[i].amt); }
    CHECK(pk==pub,"wrong-key","input %zu signed with key %s, expected the one at %u/%u: %s",i,hx(pk).c_str(),e.in[i].d[0],e.in[i].d[1],hx(pub).c_str()); CHECK(sg.size()>1&&sg.back()==1,"bad-signature","input %zu: no SIGHASH_ALL",i); sg.pop_back(); Bytes r,s2; CHECK(under(sg,r,s2),"bad-signature","input %zu: not strict DER",i); Point P; parseSec(pub,P); CHECK(verify(P,h,r,s2),"bad-signature","input %zu: signature is not valid",i); count("probe.signature_verified"); }
  return done; }
static void c13(){ Wallet acc=genWallet(); std::vector<int> own,nested; u64 tin,tout; bool known; EModel e=genE(acc,own,nested,tin,tout,known); MTx&t=e.tx; size_t ni=t.in.size(); Bytes enc=electrumEnc(e); rngPlan(chance(1,3));
  ElectrumTx*p; { Dev d; p=new ElectrumTx; } deliver(p,enc); u64 fee; { Dev d; fee=p->fee(); } unsigned __int128 all=0; for(auto&x:e.tx.out) all+=x.amt; u64 want= known&&tin>=all? (u64)(tin-all) : 0; CHECK(fee==want,"wrong-fee","fee shown %llu, inputs %llu outputs %llu",(unsigned long long)fee,(unsigned long long)tin,(unsigned long long)tout);
  u32 wantN=0; for(int o:own) wantN+=o; int rounds=1+(chance(1,5)?1:0); std::set<size_t> by; bool other=chance(1,6);
  if(other){ Wallet w2=genWallet(); uint8_t n; { Dev d; HDPrivateKey k=libKey(w2); n=p->sign(k); } u32 exp=0; Bytes mine=hdPubRaw(w2.hd,PUBV[0]); for(auto&m:e.in) exp+=std::equal(mine.begin()+13,mine.end(),m.xpub78.begin()+13); CHECK(n==(uint8_t)exp,"wrong-count","another account signs %u inputs, %u are its own",n,exp); count("probe.other_account"); if(exp){ { Dev d; delete p; } return; } }
  for(int r=0;r<rounds;r++){ uint8_t n; bool viaCopy=chance(1,8); budget(4000000000ull); { Dev d; HDPrivateKey k=libKey(acc); if(viaCopy){ ElectrumTx c=*p; n=c.sign(k); *p=c; } else n=p->sign(k); } L("sign: %u",n); CHECK(n==(uint8_t)wantN,"wrong-count","sign() reports %u inputs, %u are the account's",n,wantN); }
  judgeE(acc,e,own,nested,collect(p));
  { Dev d; delete p; } checkNoLeak("after the session"); }
static Reg r13("C13",c13);

// ---------------------------------------------------------------- memory runs out while signing (C16)
void oomOn(u64 need); bool oomOff();
void oomPsbt(){ Session s=genSession(chance(2,3)); PSBT*p; { Dev d; p=new PSBT; } deliver(p,s.enc); int wi=choose(s.w.size()); u32 total=0; for(auto&x:s.in) for(auto&e:x.ent) if(e.signs.count(wi)) total++; HDPrivateKey*k; u64 need; budget(8000000000ull); { Dev d; k=new HDPrivateKey(libKey(s.w[wi])); PSBT c=*p; u64 a=g_allocs; c.sign(*k); need=g_allocs-a; }
  if(chance(1,2)) oomCopy(*p,"PSBT"); bool thrown=false; u32 n=0; oomOn(need); try{ Dev d; n=p->sign(*k); }catch(std::bad_alloc&){ thrown=true; count("probe.bad_alloc"); } bool hit=oomOff(); L("signed %u of %u",n,total); CHECK(dumpL(p->tx)==dumpM(s.tx,true),"tx-altered","the transaction held was altered"); Judged j=judgeReply(s,collect(p),{wi},hit); if(!thrown) CHECK(n>=j.fresh&&n<=j.fresh+j.over&&n<=total,"wrong-count","%u signatures reported, %u new ones present (%u replaced)",n,j.fresh,j.over); if(!hit) CHECK(!thrown,"wrong-count","bad_alloc without an allocation failure"); if(hit&&n) count("probe.survived_oom");
  { Dev d; n=p->sign(*k); delete k; } L("signed %u once memory is back",n); judgeReply(s,collect(p),{wi}); { Dev d; delete p; } checkNoLeak("after the session"); }
void oomElectrum(){ Wallet acc=genWallet(); std::vector<int> own,nested; u64 tin,tout; bool known; EModel e=genE(acc,own,nested,tin,tout,known); ElectrumTx*p; { Dev d; p=new ElectrumTx; } deliver(p,electrumEnc(e)); HDPrivateKey*k; u64 need; budget(8000000000ull); { Dev d; k=new HDPrivateKey(libKey(acc)); ElectrumTx c=*p; u64 a=g_allocs; c.sign(*k); need=g_allocs-a; }
  if(chance(1,2)) oomCopy(*p,"Electrum transaction"); bool thrown=false; u32 n=0; oomOn(need); try{ Dev d; n=p->sign(*k); }catch(std::bad_alloc&){ thrown=true; count("probe.bad_alloc"); } bool hit=oomOff(); L("signed %u",n); u32 got=judgeE(acc,e,own,nested,collect(p),hit); if(!thrown) CHECK(n==(uint8_t)got,"wrong-count","%u inputs reported signed, %u are",n,got); if(!hit) CHECK(!thrown,"wrong-count","bad_alloc without an allocation failure"); if(hit&&n) count("probe.survived_oom");
  { Dev d; n=p->sign(*k); delete k; } judgeE(acc,e,own,nested,collect(p)); { Dev d; delete p; } checkNoLeak("after the session"); }

// ---------------------------------------------------------------- power loss
struct Host9{ u32 n; uint8_t b[1<<16]; u64 phase[6]; u32 finished; u32 boots; u32 signedN; };
static Host9*H9; static u64 g_crashReads,g_crashWrites; // crash when this many link bytes have been taken / offered in this boot (0: no)
struct CrashIn: SimIn{ int read() override{ { Host h; if(g_crashReads&&reads+1>=g_crashReads){ L("power loss at request byte %zu",reads); count("fault.power_loss_receiving"); dropImage(); } } return SimIn::read(); } };
struct CrashOut: SimOut{ u64 wr=0; size_t write(uint8_t b) override{ Host h; if(!room){ refused++; return 0; } if(g_crashWrites&&++wr>=g_crashWrites){ L("power loss at reply byte %u",H9->n); count("fault.power_loss_sending"); dropImage(); } room--; if(H9->n>=sizeof H9->b) harness("reply too long"); H9->b[H9->n++]=b; return 1; } size_t write(const uint8_t*a,size_t n) override{ size_t i=0; for(;i<n;i++) if(!write(a[i])) break; return i; } };
static void cutPower(){ L("power loss at step %llu of this boot",(unsigned long long)g_steps); count("fault.power_loss_at_step"); dropImage(); }
static void boot(const std::string&phrase,const std::string&pw,bool usePhrase,const Bytes&seed,const Bytes&req,int inMode,int outMode,int phase,u64 at){ // phase<0: never loses power
  H9->boots++; rngPlan(true); g_crashReads=g_crashWrites=0; g_step_hook=cutPower; g_step_hook_at=~0ull; u64 t0=g_steps; auto arm=[&](int ph){ H9->phase[ph]=g_steps; if(phase==ph&&at) g_step_hook_at=g_steps+at; };
  budget(4000000000ull); HDPrivateKey*k; arm(0); { Dev d; k=new HDPrivateKey; if(usePhrase) k->fromMnemonic(phrase.c_str(),phrase.size(),pw.c_str(),pw.size()); else k->fromSeed(seed.data(),seed.size()); }
  arm(1); if(phase==4) g_crashReads=at; CrashIn in; PSBT*p; { Dev d; p=new PSBT; } size_t sent=0; while(sent<req.size()){ size_t c=std::min(req.size()-sent,chunkSize(inMode,req.size()-sent)); in.push(Bytes(req.begin()+sent,req.begin()+sent+c)); sent+=c; { Dev d; in.parse(p); } if(p->getStatus()==PARSING_FAILED) fail("spurious-failure","well-formed request rejected"); } CHECK(p->getStatus()==PARSING_DONE,"spurious-failure","request complete but status %s",stName(p->getStatus()));
  arm(2); uint8_t n; { Dev d; n=p->sign(*k); } if(phase<0&&!H9->finished) H9->signedN=n; CHECK(n==H9->signedN||!H9->finished,"different-reply","signatures reported: %u, uninterrupted: %u",n,H9->signedN);
  arm(3); if(phase==5) g_crashWrites=at; CrashOut o; size_t len=p->length(); size_t guard=0; while(H9->n<len){ o.room+=chunkSize(outMode,len-H9->n); u32 b=H9->n; size_t r; { Dev d; r=o.serialize(p,b); } CHECK(r==H9->n-b,"byte-count","reported %zu bytes, sent %u",r,H9->n-b); CHECK(r,"stall","no progress sending at %u of %zu",b,len); if(++guard>100000) fail("stall","sending does not end"); }
  g_step_hook_at=~0ull; H9->phase[4]=g_steps; H9->finished=1; { Dev d; delete p; delete k; } checkNoLeak("after the session"); (void)t0; }
static void c09(){ H9=(Host9*)shared(sizeof(Host9)); Session s=genSession(true); bool usePhrase=chance(1,3); std::string ph=mnemonic(blob(oneOf({16,32}))), pw=choose(2)?"":"pw"; Bytes seed=blob(64);
  // the durable key replaces the first wallet of the session, so that there is something to sign
  HD root=master(usePhrase? bip39seed(ph,pw) : seed); { // rebuild the request with entries of this root
    Paths ps; MPsbt p; if(!parsePsbt(s.enc,p)) harness("own encoding"); Bytes fp=fingerprint(root); for(size_t i=0;i<s.in.size();i++) if(i==0||chance(1,2)){ Path path=genPath(ps); if(path.size()>5) path.resize(5); Bytes v=fp; for(u32 q:path) put(v,q,4); Bytes pub=pubOf(derive(root,path).key); p.in[i].push_back({K(6,pub),v}); } s.enc=ser(p); }
  int im=choose(6),om=choose(6); if(s.enc.size()>1500){ im=4; om=4; }
  image([&]{ boot(ph,pw,usePhrase,seed,s.enc,im,om,-1,0); }); if(!H9->finished) harness("reference session did not finish"); Bytes ref_(H9->b,H9->b+H9->n); u64 len[4]; for(int i=0;i<4;i++) len[i]=H9->phase[i+1]-H9->phase[i]; L("uninterrupted reply: %zu bytes, %u signatures, steps %llu/%llu/%llu/%llu",ref_.size(),H9->signedN,(unsigned long long)len[0],(unsigned long long)len[1],(unsigned long long)len[2],(unsigned long long)len[3]);
  H9->n=0; int crashes=1+choose(4); for(int c=0;c<crashes;c++){ int ph_=usePhrase? choose(6) : 1+choose(5); u64 at= ph_<4? 1+ (u64)((choose(1u<<30)/(double)(1u<<30))*len[ph_]) : ph_==4? 1+choose(s.enc.size()) : 1+choose(ref_.size()+1); nontrivial(); u32 before=H9->n; image([&]{ boot(ph,pw,usePhrase,seed,s.enc,choose(2)?im:choose(6)==1?1:im,choose(2)?om:3,ph_,at); }); L("boot %d: reply bytes %u -> %u",c,before,H9->n); CHECK(H9->n<=ref_.size()&&Bytes(H9->b,H9->b+H9->n)==Bytes(ref_.begin(),ref_.begin()+H9->n),"different-reply","after %d power losses the reply differs from the uninterrupted one: %s",c+1,diff(hx(ref_),hx(H9->b,H9->n)).c_str()); }
  image([&]{ boot(ph,pw,usePhrase,seed,s.enc,im,om,-1,0); }); CHECK(Bytes(H9->b,H9->b+H9->n)==ref_,"different-reply","the reply pieced together over %d restarts differs: %s",crashes,diff(hx(ref_),hx(H9->b,H9->n)).c_str()); }
static Reg r09("C09",c09);
}
