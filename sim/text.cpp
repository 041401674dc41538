// C17: text that reaches the device through a keyboard or a camera (typed wrong, cut, doubled, padded), bounded text buffers, memory failures.
#include "world.h"
#include <string.h>
#include <algorithm>
#include <new>
namespace sim {
using namespace ref;
Bytes keyNum(); void oomOn(u64 need); bool oomOff();
static const char*B58="123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz",*B43="0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ$*+-./:",*B64="ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/",*BHEX="0123456789abcdef",*B32="qpzry9x8gf2tvdw0s3jn54khce6mua7l",*BPATH="0123456789/h'm";
static std::string esc(const std::string&s){ std::string o; for(unsigned char c:s.substr(0,160)){ if(c>32&&c<127&&c!='\\') o+=c; else { char b[8]; snprintf(b,8,"\\x%02x",c); o+=b; } } if(s.size()>160) o+="...("+std::to_string(s.size())+")"; return o; }
// ---------------------------------------------------------------- the channel
static std::string garble(std::string s,const char*al){ size_t na=strlen(al); int n=1+choose(3); nontrivial(); for(int k=0;k<n;k++){ auto any=[&]{ return al[choose(na)]; }; size_t i= s.size()? choose(s.size()):0; int f=choose(16); if(s.empty()&&f<6) f=13; switch(f){
    case 0: case 1: s[i]=any(); count("fault.text_typo"); break;
    case 2: s[i]=(char)(1+choose(255)); count("fault.text_noise"); break;
    case 3: if(i+1<s.size()) std::swap(s[i],s[i+1]); count("fault.text_swap"); break;
    case 4: s.erase(i,1+choose(3)); count("fault.text_dropped"); break;
    case 5: s[i]= isupper((uint8_t)s[i])? tolower(s[i]) : toupper(s[i]); count("fault.text_case"); break;
    case 6: s.insert(i,s.substr(i,1+choose(4))); count("fault.text_doubled"); break;
    case 7: s.resize(i); count("fault.text_cut"); break;
    case 8: s+=std::string(1+choose(3)," \n\r\t;=1a"[choose(8)]); count("fault.text_trailing"); break;
    case 9: s=std::string(1+choose(3)," \n\t:0x"[choose(6)])+s; count("fault.text_leading"); break;
    case 10: { bool up=choose(2); for(auto&c:s) c= up?toupper(c):tolower(c); count("fault.text_case"); break; }
    case 11: s+=s; count("fault.text_repeated"); break;
    case 12: s.clear(); count("fault.text_empty"); break;
    case 13: s.insert(i,1,any()); count("fault.text_inserted"); break;
    case 14: s.insert(choose(2)?0:s.size(),std::string(1+choose(260),choose(2)?al[0]:any())); count("fault.text_overlong"); break;
    default: { size_t m=choose(140); s.clear(); while(s.size()<m) s+=any(); count("fault.text_garbage"); } } } return s; }
struct Typed{ std::string t; char*p; size_t n; bool cstr; // what the device is handed: a C string or a counted block, in memory of exactly that size
  Typed(const std::string&s,bool c,size_t nuls=0):t(s),cstr(c){ if(cstr){ n=strlen(s.c_str()); t=s.substr(0,n); p=new char[n+1]; memcpy(p,s.c_str(),n+1); } else { n=s.size()+nuls; p=new char[n]; memset(p,0,n); memcpy(p,s.data(),s.size()); if(nuls) count("fault.text_zero_padded"); } } ~Typed(){ delete[] p; } Typed(const Typed&)=delete; };
struct Room{ uint8_t*p; size_t n; Room(size_t k):p(new uint8_t[k]),n(k){ memset(p,0xEE,k); } ~Room(){ delete[] p; } Room(const Room&)=delete; Bytes first(size_t k){ return B(p,std::min(k,n)); } std::string str(size_t k){ return std::string((char*)p,std::min(k,n)); } };
static size_t roomFor(size_t need){ size_t r; switch(choose(6)){ case 0: r=need; break; case 1: r=need+1+choose(12); break; case 2: r=need+100+choose(100); break; case 3: r= need? need-1:0; break; case 4: r=choose(need+1); break; default: r= choose(3)? need+choose(3):0; } if(r<need){ count("fault.small_buffer"); nontrivial(); } return r; }
static bool inAl(const std::string&s,const char*al){ for(char c:s) if(!c||!strchr(al,c)) return false; return true; }
static std::string prefixOf(const std::string&s,const char*al){ size_t i=0; while(i<s.size()&&s[i]&&strchr(al,s[i])) i++; return s.substr(0,i); }
template<class F> static bool guarded(bool oom,u64 need,F f){ bool thrown=false; if(oom) oomOn(need); try{ Dev d; f(); }catch(std::bad_alloc&){ thrown=true; count("probe.bad_alloc"); } bool hit= oom? oomOff():false; if(thrown&&!hit) harness("bad_alloc without a failed allocation"); if(thrown) forgetLive(); return hit; }
// a base58check text: exact when every character is in the alphabet; otherwise refused or read up to the first strange character
struct Want{ bool must=false,may=false; Bytes pay; };
static Want b58c(const std::string&t,bool(*ok)(const Bytes&)){ Want w; std::string p=prefixOf(t,B58); w.may=unbase58check(p,w.pay)&&ok(w.pay); w.must=w.may&&p.size()==t.size(); return w; }
static bool keyOk(const uint8_t*k){ U256 v=u256(k); return !isZero(v)&&ref::cmp(v,N_)<0; }
static bool wifOk(const Bytes&b){ return (b.size()==33||(b.size()==34&&b[33]==1))&&(b[0]==0x80||b[0]==0xef)&&keyOk(b.data()+1); }
static bool prvOk(const Bytes&b){ if(b.size()!=78||b[45]||!keyOk(b.data()+46)) return false; for(auto&v:PRVV) if(!memcmp(v,b.data(),4)) return true; return false; }
static bool pubOk(const Bytes&b){ if(b.size()!=78) return false; Point P; if(!parseSec(Bytes(b.begin()+45,b.end()),P)) return false; for(auto&v:PUBV) if(!memcmp(v,b.data(),4)) return true; return false; }
static void verdict(const Want&w,bool accepted,bool hit,const char*what,const std::string&t){ if(accepted) CHECK(w.may,"accepted","%s %s was accepted",what,esc(t).c_str()); else CHECK(!w.must||hit,"rejected","%s %s was refused",what,esc(t).c_str()); count(accepted?"probe.text_accepted":"probe.text_rejected"); }
// ---------------------------------------------------------------- keys
struct Console{ PrivateKey*k; HDPrivateKey*x; HDPublicKey*q; Script*s; };
static void inWif(Console&c,bool dmg,bool oom){ Bytes b(1,(uint8_t)(choose(2)?0x80:0xef)); Bytes key=keyNum(); if(chance(1,12)){ key= choose(2)? Bytes(32,0) : choose(2)? be(N_) : Bytes(32,0xff); count("fault.bad_key"); nontrivial(); } app(b,key); if(choose(3)) b.push_back(1); if(chance(1,8)){ nontrivial(); count("fault.bad_payload"); switch(choose(4)){ case 0: b[0]=choose(256); break; case 1: b.resize(34); b[33]=choose(256); break; case 2: b.resize(oneOf({0,1,20,21,31,32,35,36,37,40,41,60})); break; default: b.push_back(choose(3)); } }
  std::string t=base58check(b); if(dmg) t=garble(t,B58); bool cs=choose(2); Typed y(t,cs,!cs&&chance(1,4)?1+choose(20):0); Want w=b58c(y.t,wifOk); int how=choose(3); L("WIF %s%s",esc(y.t).c_str(),how==2?" (construct)":""); budget(2000000000ull); int r=1; bool via=how!=2; PrivateKey*o=c.k; if(how==2) via=false;
  std::string arg=y.t; bool ran=false; bool hit=guarded(oom,2,[&]{ if(how==2){ PrivateKey n(arg); *o=n; } else if(how==1) r= y.cstr? (int)o->fromString(y.p) : (int)o->fromString(y.p,y.n); else r= y.cstr? o->fromWIF(y.p) : o->fromWIF(y.p,y.n); ran=true; }); if(!ran) return;
  bool acc=o->isValid(); if(via) CHECK((r!=0)==acc,"accepted","fromWIF returns %d, the key is %svalid",r,acc?"":"not "); verdict(w,acc,hit,"WIF",y.t); uint8_t sec[32]; o->getSecret(sec);
  if(acc){ CHECK(!memcmp(sec,w.pay.data()+1,32),"content","WIF %s gives another key: %s",esc(y.t).c_str(),hx(sec,32).c_str()); bool comp=w.pay.size()==34; Bytes pub=pubOf(B(sec,32),comp); uint8_t s[65]; size_t l=o->publicKey().sec(s,65); CHECK(B(s,l)==pub,"content","public key of %s is %s",esc(y.t).c_str(),hx(s,l).c_str()); std::string back; { Dev d; back=o->wif(); } CHECK(back==base58check(w.pay),"content","WIF text comes back as %s",esc(back).c_str()); std::string a; { Dev d; a=o->legacyAddress(); } Bytes h=hash160(pub); h.insert(h.begin(),w.pay[0]==0x80?0:0x6f); CHECK(a==base58check(h),"content","address is %s",esc(a).c_str()); }
  else { CHECK(!o->publicKey().isValid(),"left-over","a refused WIF left a public key behind"); static const uint8_t z[32]={0}; CHECK(!memcmp(sec,z,32),"left-over","a refused WIF left a secret behind"); } }
static Bytes badHD(Bytes b){ nontrivial(); count("fault.bad_payload"); switch(choose(6)){ case 5: if(b.size()==78){ Bytes k= choose(2)? be(N_):Bytes(32,0xff); if(choose(2)) k[31]+=choose(100); std::copy(k.begin(),k.end(),b.begin()+46); } break; case 0: b[choose(4)]^=1<<choose(8); break; case 1: b[45]^=1+choose(255); break; case 2: b.resize(oneOf({0,4,13,45,46,77,79,80,81,85,86,100})); break; case 3: for(int i=46;i<78;i++) b[i]=choose(2)?0:b[i]; break; default: b[46+choose(32)]^=1<<choose(8); } return b; }
static void inXprv(Console&c,bool dmg,bool oom){ HD h=genHD(); int v=choose(10); Bytes b=hdRaw(h,PRVV[v]); if(chance(1,10)) b=hdPubRaw(h,PUBV[v]); if(chance(1,6)) b=badHD(b); std::string t=base58check(b); if(dmg) t=garble(t,B58); bool cs=choose(2); Typed y(t,cs,!cs&&chance(1,4)?1+choose(20):0); Want w=b58c(y.t,prvOk); L("xprv %s",esc(y.t).c_str()); budget(2000000000ull); HDPrivateKey*o=c.x; int how=y.cstr?choose(2):1; bool ran=false; bool hit=guarded(oom,2,[&]{ if(!how){ HDPrivateKey n(y.p); *o=n; } else if(y.cstr) o->fromString(y.p); else o->fromString(y.p,y.n); ran=true; }); if(!ran) return;
  bool acc=o->isValid(); verdict(w,acc,hit,"xprv",y.t); if(!acc) return; uint8_t sec[32]; o->getSecret(sec); CHECK(!memcmp(sec,w.pay.data()+46,32),"content","xprv %s gives another key",esc(y.t).c_str()); std::string back,pub; { Dev d; back=o->xprv(); pub=o->xpub().xpub(); } CHECK(back==base58check(w.pay),"content","xprv comes back as %s",esc(back).c_str()); Bytes pb=w.pay; for(int i=0;i<10;i++) if(!memcmp(PRVV[i],w.pay.data(),4)){ memcpy(pb.data(),PUBV[i],4); break; } Bytes ps=pubOf(B(sec,32)); std::copy(ps.begin(),ps.end(),pb.begin()+45); CHECK(pub==base58check(pb),"content","xpub of %s is %s",esc(y.t).c_str(),esc(pub).c_str()); }
static void inXpub(Console&c,bool dmg,bool oom){ HD h=genHD(); int v=choose(10); Bytes b=hdPubRaw(h,PUBV[v]); if(chance(1,10)) b=hdRaw(h,PRVV[v]); if(chance(1,6)) b=badHD(b); std::string t=base58check(b); if(dmg) t=garble(t,B58); bool cs=choose(2); Typed y(t,cs,!cs&&chance(1,4)?1+choose(20):0); Want w=b58c(y.t,pubOk); L("xpub %s",esc(y.t).c_str()); budget(2000000000ull); HDPublicKey*o=c.q; int how=y.cstr?choose(2):1; bool ran=false; bool hit=guarded(oom,2,[&]{ if(!how){ HDPublicKey n(y.p); *o=n; } else if(y.cstr) o->fromString(y.p); else o->fromString(y.p,y.n); ran=true; }); if(!ran) return;
  bool acc=o->isValid(); verdict(w,acc,hit,"xpub",y.t); if(!acc) return; uint8_t s[65]; size_t l=o->sec(s,65); CHECK(B(s,l)==Bytes(w.pay.begin()+45,w.pay.end()),"content","xpub %s gives another key",esc(y.t).c_str()); std::string back; { Dev d; back=o->xpub(); } CHECK(back==base58check(w.pay),"content","xpub comes back as %s",esc(back).c_str()); }
// ---------------------------------------------------------------- addresses
static Bytes witScript(int v,const Bytes&p){ Bytes s{(uint8_t)(v?0x50+v:0),(uint8_t)p.size()}; app(s,p); return s; }
static void inAddr(Console&c,bool dmg,bool oom){ static const char*hrps[]={"bc","tb","bcrt"}; std::string t; const char*al=B58; Bytes h=choose(4)? blob(20) : Bytes(20,0); if(chance(1,8)) for(int i=0;i<(int)choose(20);i++) h[i]=0;
  switch(choose(8)){ case 0: case 1: case 2: { Bytes b{(uint8_t)oneOf({0,5,0x6f,0xc4})}; if(chance(1,10)){ b[0]=choose(256); count("fault.bad_payload"); } app(b,h); if(chance(1,10)){ b.resize(oneOf({1,19,20,22,23,25,33,40})); count("fault.bad_payload"); } t=base58check(b); break; }
    case 3: case 4: case 5: al=B32; t=segwitAddr(hrps[choose(3)],0,choose(2)?h:blob(32),1); break;
    case 6: { al=B32; int v=choose(17); Bytes p=blob(oneOf({20,32,2,40,33,39,16})); t=segwitAddr(hrps[choose(3)],v,p,(v!=0)==!!choose(4)?0x2bc830a3:1); break; }
    default: { al=B32; int k=choose(6); count("fault.bad_payload"); nontrivial(); if(k>=4){ std::vector<int> d=groups(k==4?h:blob(32)); if(choose(2)){ int n=1+choose(2); for(int i=0;i<n;i++) d.push_back(choose(3)?0:choose(32)); } else d.back()|=1+choose(k==4?0:15); t=bech32(hrps[choose(3)],0,d,1); } else if(k==0) t=segwitAddr("ltc",0,h,1); else if(k==1) t=segwitAddr(hrps[choose(3)],0,blob(oneOf({19,21,31,33,1})),1); else if(k==2) t=segwitAddr(hrps[choose(3)],choose(32),blob(oneOf({41,45,52,53,54,56,60})),1); else t=segwitAddr(hrps[choose(3)],0,h,1+choose(1000)); } }
  if(al==B32&&chance(1,6)) for(auto&ch:t) ch=toupper(ch); if(dmg) t=garble(t,al); Typed y(t,true); Bytes want; bool must=false; std::string hrp; int v; Bytes p; u32 k; if(unsegwitAddr(y.t,hrp,v,p,k)&&(hrp=="bc"||hrp=="tb"||hrp=="bcrt")&&k==(v?0x2bc830a3u:1u)){ want=witScript(v,p); must=true; }
  else { Want w=b58c(y.t,[](const Bytes&b){ return b.size()==21&&(b[0]==0||b[0]==5||b[0]==0x6f||b[0]==0xc4); }); if(w.may){ Bytes hh(w.pay.begin()+1,w.pay.end()); if(w.pay[0]==0||w.pay[0]==0x6f) want=p2pkh(hh); else { want={0xa9,0x14}; app(want,hh); want.push_back(0x87); } must=w.must; } }
  int how=choose(4); L("address %s",esc(y.t).c_str()); Script*o=c.s; std::string arg=y.t; bool ran=false; bool hit=guarded(oom,3,[&]{ switch(how){ case 0: { Script n(y.p); *o=n; break; } case 1: { Script n(arg); *o=n; break; } case 2: { TxOut n((uint64_t)5,y.p); *o=n.scriptPubkey; break; } default: { TxOut n(y.p,(uint64_t)5); *o=n.scriptPubkey; } } ran=true; }); if(!ran) return; Bytes got=B(o->scriptArray,o->scriptLen);
  CHECK(got.empty()||got==want,"accepted","address %s became the script %s",esc(y.t).c_str(),hx(got).c_str()); CHECK(!must||hit||got.size(),"rejected","address %s was refused",esc(y.t).c_str()); count(got.size()?"probe.text_accepted":"probe.text_rejected"); }
// ---------------------------------------------------------------- derivation paths
// kind of key (0 x, 1 y, 2 z, 3 Y, 4 Z, 5 legacy, 6 multisig account, 7 plain) and network after one more private step: BIP-44/45/48/49/84
static void purpose(int depth,u32 i,int&ty,int&net){ if(i<0x80000000u) return; u32 k=i-0x80000000u; int was=ty; if(depth==0){ if(k==44) ty=5; if(k==49) ty=1; if(k==84) ty=2; if(k==48) ty=6; if(k==45) ty=7; } if(depth==1&&k<2) net= k==1; if(depth==3&&was==6){ if(k==1) ty=3; if(k==2) ty=4; } }
static void inPath(bool dmg,bool oom){ HD h=genHD(); h.depth%=200; bool pub=chance(1,3); int ty=choose(3)?0:choose(5),net=chance(1,3); if(choose(2)) h.depth=0; else if(chance(1,4)) h.depth=choose(5); std::string t=choose(4)?"m/":""; int n=1+choose(3); if(!pub&&chance(1,3)){ static const char*pp[]={"44","45","48","49","84"}; t+=std::string(pp[choose(5)])+"h"; if(choose(5)) t+="/"+std::to_string(choose(3))+(choose(8)?"h":""); if(choose(3)) t+="/"+std::to_string(choose(3))+"h"; if(choose(3)) t+="/"+std::to_string(choose(3))+(choose(4)?"h":""); n=0; count("kind.standard_path"); } for(int i=0;i<n;i++){ u64 v= choose(4)? choose(200) : oneOf({0,1,2147483647u,2147483648u,2147483649u,4294967295u,4294967296ull,4294967297ull,4294967340ull,10000000000ull,42949672960ull,214748364,429496729,99999999999ull}); t+=(i?"/":"")+std::to_string(v); if(!pub&&choose(2)) t+= choose(2)?"h":"'"; } if(chance(1,6)) t+="/"; if(chance(1,12)){ t= choose(3)? (choose(2)?"m":"m/") : ""; nontrivial(); count("fault.text_empty"); } if(dmg) t=garble(t,BPATH); if(t.size()>120) t.resize(120); Typed y(t,true); t=y.t;
  // reference reading
  std::string s=t; bool bad=false,soft=false; if(s.size()&&s[0]=='m'){ if(s.size()==1) s=""; else if(s[1]=='/') s=s.substr(2); else bad=true; } if(s.size()&&s.back()=='/') s.pop_back(); std::vector<u32> p; if(!bad&&s.size()){ size_t i=0; while(true){ size_t j=s.find('/',i); std::string x=s.substr(i,j==std::string::npos?j:j-i); bool hard=false; if(x.size()&&(x.back()=='h'||x.back()=='\'')){ hard=true; x.pop_back(); } if(x.empty()) soft=true; u64 v=0; for(char ch:x){ if(ch<'0'||ch>'9'){ bad=true; break; } v=v*10+(ch-'0'); if(v>0xffffffffffull) v=0xffffffffffull; } if(v>0xffffffffull||(hard&&v>=0x80000000ull)) bad=true; if(hard&&pub) bad=true; if(v>=0x80000000ull){ if(pub) bad=true; else soft=true; } p.push_back((u32)v+(hard?0x80000000u:0)); if(bad||j==std::string::npos) break; i=j+1; } } else if(t.empty()||t.size()>2||t=="/") soft=true; if(p.size()>12){ L("path too long, skipped"); return; }
  L("%s path %s",pub?"public":"private",esc(t).c_str()); budget(4000000000ull); Bytes got; std::string addr; bool valid; std::string arg=t; int how=choose(2); bool ran=false; bool hit=guarded(oom,1,[&]{ static const ScriptType tys[]={UNKNOWN_TYPE,P2SH_P2WPKH,P2WPKH,P2SH_P2WSH,P2WSH}; HDPrivateKey k(h.key.data(),h.cc.data(),h.depth,h.pfp.data(),h.child,net?&Testnet:&Mainnet,tys[ty]); uint8_t raw[78]={0}; char ad[100]={0}; if(pub){ HDPublicKey q=k.xpub(); HDPublicKey r= how? q.derive(y.p) : q.derive(arg.c_str()); valid=r.isValid(); r.serialize(raw,78,(size_t)0,RAW); if(valid) r.address(ad,sizeof ad); } else { HDPrivateKey r= how? k.derive(y.p) : k.derive(arg.c_str()); valid=r.isValid(); r.serialize(raw,78,(size_t)0,RAW); if(valid) r.address(ad,sizeof ad); } { Host hh; got=B(raw,78); addr=ad; } ran=true; }); if(!ran) return;
  if(valid){ CHECK(!bad,"accepted","path %s was accepted",esc(t).c_str()); HD d=derive(h,p); if(!pub){ int dp=h.depth; for(u32 i:p) purpose(dp++,i,ty,net); } int vi=net*5+(ty<5?ty:0); Bytes w= pub? hdPubRaw(d,PUBV[vi]) : hdRaw(d,PRVV[vi]); CHECK(got==w,"content","path %s leads to another key: %s",esc(t).c_str(),diff(hx(w),hx(got)).c_str()); Bytes kp=pubOf(d.key),hk=hash160(kp); std::string wa; if(ty==5){ Bytes b{(uint8_t)(net?0x6f:0)}; app(b,hk); wa=base58check(b); } else if(ty==1){ Bytes b{(uint8_t)(net?0xc4:5)}; app(b,hash160(p2wpkh(hk))); wa=base58check(b); } else wa=segwitAddr(net?"tb":"bc",0,hk,1); CHECK(addr==wa||(hit&&addr.empty()),"content","address at path %s is %s, expected %s",esc(t).c_str(),esc(addr).c_str(),wa.c_str()); } else CHECK(bad||soft||hit,"rejected","path %s was refused",esc(t).c_str()); count(valid?"probe.text_accepted":"probe.text_rejected"); }
// ---------------------------------------------------------------- plain encodings
static std::string bits(const Bytes&b){ std::string t; for(auto c:b) for(int i=7;i>=0;i--) t+= (c>>i)&1?'1':'0'; return t; }
static Bytes someBytes(){ size_t n= choose(3)? choose(40) : oneOf({0,1,2,3,4,5,20,21,25,32,33,34,37,64,78,82,100,130,200,300,520}); Bytes b=blob(n); if(chance(1,3)&&n){ size_t z= chance(1,4)? n : choose(n+1); for(size_t i=0;i<z;i++) b[i]=0; } return b; }
static void dec(int kind,bool dmg,bool oom){ Bytes b=someBytes(); static const char*nm[]={"hex","base58","base58check","base43","base64","base64 without padding","base64 url","base64 url without padding","binary digits"}; uint8_t fl= kind<4||kind==8?0: (kind-4); bool np=fl&1,url=fl&2; std::string t; const char*al=B64; switch(kind){ case 0: t=hex(b); if(chance(1,4)) for(auto&ch:t) if(choose(2)) ch=toupper(ch); al=BHEX; break; case 1: t=base58(b); al=B58; break; case 2: t=base58check(b); al=B58; break; case 3: t=base43(b); al=B43; break; case 8: if(b.size()>70&&choose(4)) b.resize(70); t=bits(b); if(t.size()&&choose(2)) t=t.substr(choose(8)); al="01"; break; default: t=base64(b,!np,url); }
  if(dmg) t=garble(t,al); Bytes strict,lax; bool okS=false,okL=false; bool str=chance(1,4); Typed y(t,str,0); t=y.t; switch(kind){
    case 0: okS=inAl(t,"0123456789abcdefABCDEF")&&t.size()%2==0; { size_t i=0; auto hv=[&](size_t k){ return k<t.size()&&isxdigit((uint8_t)t[k]); }; while(i<t.size()&&!hv(i)) i++; while(i+1<t.size()&&hv(i)&&hv(i+1)){ auto v=[&](char ch){ return isdigit((uint8_t)ch)?ch-'0':(tolower(ch)-'a'+10); }; lax.push_back(v(t[i])*16+v(t[i+1])); i+=2; } okL=true; } if(okS) strict=lax; break;
    case 1: okS=inAl(t,B58)&&unbase58(t,strict); okL=unbase58(prefixOf(t,B58),lax); break;
    case 2: okS=inAl(t,B58)&&unbase58check(t,strict); okL=unbase58check(prefixOf(t,B58),lax); break;
    case 3: okS=inAl(t,B43)&&unbase43(t,strict); okL=unbase43(prefixOf(t,B43),lax); break;
    case 8: okS=inAl(t,"01"); if(okS){ std::string u=t; while(u.size()%8) u="0"+u; for(size_t i=0;i<u.size();i+=8){ int v=0; for(int k=0;k<8;k++) v=v*2+(u[i+k]-'0'); strict.push_back(v); } } break;
    default: okS=unbase64(t,strict,!np,url); { std::string u=t; if(url) for(auto&ch:u) ch= ch=='-'?'+': ch=='_'?'/':ch; size_t i=0; while(i<u.size()&&u[i]&&strchr(B64,u[i])) i++; if(i==u.size()||u[i]=='='){ okL=true; size_t m=i; if(m%4==1) okL=false; u32 v=0; int bits=0; for(size_t k=0;k<m;k++){ v=((v<<6)|(u32)(strchr(B64,u[k])-B64))&0xffff; bits+=6; if(bits>=8){ bits-=8; lax.push_back((v>>bits)&255); } } } } }
  size_t need= okS? strict.size() : okL? lax.size() : choose(40); size_t room=roomFor(need); bool sized=false; if(!str&&kind!=0&&kind!=2&&kind!=8&&chance(1,4)){ Dev dd; room= kind==1? fromBase58Length(y.p,y.n) : kind==3? fromBase43Length(y.p,y.n) : fromBase64Length(y.p,y.n,fl); sized=true; count("probe.announced_size"); } L("%s %s into %zu bytes (%zu needed)",nm[kind],esc(t).c_str(),room,need); Room o(room); size_t r=0; budget(200000000ull); std::string arg=t; bool ran=false; bool hit=guarded(oom,2,[&]{ switch(kind){ case 0: r= str? fromHex(arg,o.p,o.n) : fromHex(y.p,y.n,o.p,o.n); break; case 1: r= str? fromBase58(arg,o.p,o.n) : fromBase58(y.p,y.n,o.p,o.n); break; case 2: r= str? fromBase58Check(arg,o.p,o.n) : fromBase58Check(y.p,y.n,o.p,o.n); break; case 3: r= str? fromBase43(arg,o.p,o.n) : fromBase43(y.p,y.n,o.p,o.n); break; case 8: r= str? fromBin(arg,o.p,o.n) : fromBin(y.p,y.n,o.p,o.n); break; default: r= str? fromBase64(arg,o.p,o.n,fl) : fromBase64(y.p,y.n,o.p,o.n,fl); } ran=true; }); if(!ran) return;
  if(r==0){ CHECK(!okS||hit||(room<strict.size()&&!sized)||strict.empty(),"rejected","%s %s was refused with room for %zu bytes",nm[kind],esc(t).c_str(),room); count("probe.text_rejected"); return; }
  CHECK(r<=room,"content","%s %s: %zu bytes reported, there was room for %zu",nm[kind],esc(t).c_str(),r,room); Bytes got=o.first(r); count("probe.text_accepted"); if(okS){ if(kind==0&&room<strict.size()){ CHECK(got==Bytes(strict.begin(),strict.begin()+r),"content","hex %s decoded to %s",esc(t).c_str(),hx(got).c_str()); } else CHECK(got==strict,"content","%s %s decoded to %s, expected %s",nm[kind],esc(t).c_str(),hx(got).c_str(),hx(strict).c_str()); }
  else { CHECK(okL,"accepted","%s %s was accepted",nm[kind],esc(t).c_str()); bool pre= kind==0||kind>=4; CHECK(got==lax||(pre&&r<lax.size()&&got==Bytes(lax.begin(),lax.begin()+r)),"content","damaged %s %s decoded to %s",nm[kind],esc(t).c_str(),hx(got).c_str()); } }
static void enc(int kind,bool oom){ Bytes b=someBytes(); static const char*nm[]={"hex","base58","base58check","base43","base64","base64 without padding","base64 url","base64 url without padding","binary digits"}; uint8_t fl= kind<4||kind==8?0:(kind-4); std::string want; switch(kind){ case 0: want=hex(b); break; case 1: want=base58(b); break; case 2: want=base58check(b); break; case 3: want=base43(b); break; case 8: want=bits(b); break; default: want=base64(b,!(fl&1),fl&2); }
  Room in(b.size()); memcpy(in.p,b.data(),b.size()); bool str=chance(1,3); size_t room=roomFor(want.size()),r=0; Room o(room); L("%s of %zu bytes into %zu characters (%zu needed)",nm[kind],b.size(),room,want.size()); budget(200000000ull); std::string got; bool ran=false; size_t lim=0; bool hit=guarded(oom,2,[&]{ if(str){ std::string x; switch(kind){ case 0: x=toHex(in.p,in.n); break; case 1: x=toBase58(in.p,in.n); break; case 2: x=toBase58Check(in.p,in.n); break; case 3: x=toBase43(in.p,in.n); break; case 8: x=toBin(in.p,in.n); break; default: x=toBase64(in.p,in.n,fl); } Host h; got=x; } else { char*c=(char*)o.p; switch(kind){ case 0: r=toHex(in.p,in.n,c,o.n); break; case 1: lim=toBase58Length(in.p,in.n); r=toBase58(in.p,in.n,c,o.n); break; case 2: r=toBase58Check(in.p,in.n,c,o.n); break; case 3: lim=toBase43Length(in.p,in.n); r=toBase43(in.p,in.n,c,o.n); break; case 8: r=toBin(in.p,in.n,c,o.n); break; default: lim=toBase64Length(in.p,in.n,fl); r=toBase64(in.p,in.n,c,o.n,fl); } } ran=true; }); if(!ran) return; if(!lim) lim=want.size()+12;
  if(str){ CHECK(got==want||(hit&&got.empty()),"content","%s of %s is %s",nm[kind],hx(b).c_str(),esc(got).c_str()); return; }
  if(r==0){ CHECK(want.empty()||hit||room<std::max(lim,want.size()),"rejected","%s of %zu bytes was not written although there is room for %zu characters",nm[kind],b.size(),room); return; } CHECK(r==want.size()&&o.str(r)==want,"content","%s of %s is %s (%zu)",nm[kind],hx(b).c_str(),esc(o.str(r)).c_str(),r); if(r<room) for(size_t i=r;i<room;i++) CHECK(o.p[i]==0||kind==99,"content","%s: no terminator after the text",nm[kind]); }
// a script that looks like a standard one but is not
static Bytes nearMiss(){ for(;;){ int k=choose(4); Bytes sc; if(k==0) sc=p2pkh(blob(20)); else if(k==1){ sc={0xa9,0x14}; app(sc,blob(20)); sc.push_back(0x87); } else sc=witScript(0,blob(k==2?20:32)); size_t edge[]={0,1,2,sc.size()-1,sc.size()-2}; switch(choose(4)){ case 0: case 1: sc[edge[choose(5)]]^=1<<choose(8); break; case 2: if(choose(2)) sc.pop_back(); else sc.push_back((uint8_t)choose(256)); break; default: sc[0]=0x51+choose(16); } bool std_= (sc.size()==25&&sc[0]==0x76&&sc[1]==0xa9&&sc[2]==20&&sc[23]==0x88&&sc[24]==0xac)||(sc.size()==23&&sc[0]==0xa9&&sc[1]==20&&sc[22]==0x87)||(sc.size()==22&&!sc[0]&&sc[1]==20)||(sc.size()==34&&!sc[0]&&sc[1]==32); if(!std_) return sc; } }
// key material written as text into bounded buffers
static void outText(bool oom){ HD h=genHD(); bool tn=choose(2); int net=choose(3); const Network*nw= net==0?&Mainnet: net==1?&Testnet:&Regtest; const char*hrp= net==0?"bc": net==1?"tb":"bcrt"; uint8_t pk= net?0x6f:0, ps= net?0xc4:5, pw= net?0xef:0x80; bool comp=!chance(1,4); (void)tn; Bytes pub=pubOf(h.key,comp),cpub=pubOf(h.key); auto leg=[&](const Bytes&p){ Bytes b=hash160(p); b.insert(b.begin(),pk); return base58check(b); }; auto nest=[&](const Bytes&p){ Bytes b=hash160(p2wpkh(hash160(p))); b.insert(b.begin(),ps); return base58check(b); }; auto seg=[&](const Bytes&p){ return segwitAddr(hrp,0,hash160(p),1); };
  int op=choose(13); static const char*nm[]={"wif","legacy address","segwit address","nested address","xprv","xpub","xpub of public key","hd address","script address","toString of key","toString of xprv","toString of xpub","public key address"}; std::string want; int ty=choose(5); static const ScriptType tys[]={UNKNOWN_TYPE,P2SH_P2WPKH,P2WPKH,P2SH_P2WSH,P2WSH}; int vi=(net?5:0)+ty; Bytes sc; 
  switch(op){ case 0: case 9: { Bytes b{pw}; app(b,h.key); if(comp) b.push_back(1); want=base58check(b); break; } case 1: want=leg(pub); break; case 2: want=seg(pub); break; case 3: want=nest(pub); break; case 4: case 10: want=base58check(hdRaw(h,PRVV[vi])); break; case 5: case 6: case 11: want=base58check(hdPubRaw(h,PUBV[vi])); break; case 7: want= ty==1? nest(cpub) : seg(cpub); break; case 12: { int k=choose(3); want= k==0?leg(pub): k==1?seg(pub):nest(pub); op=20+k; break; }
    default: { int k=choose(5); Bytes x=blob(k==3?32:20); if(choose(4)==0) for(auto&c:x) c=0; if(k==0){ sc=p2pkh(x); Bytes b{pk}; app(b,x); want=base58check(b); } else if(k==1){ sc={0xa9,0x14}; app(sc,x); sc.push_back(0x87); Bytes b{ps}; app(b,x); want=base58check(b); } else if(k<4){ sc=witScript(0,x); want=segwitAddr(hrp,0,x,1); } else { sc=nearMiss(); count("fault.near_miss_script"); nontrivial(); } } }
  size_t room=roomFor(want.size()); Room o(room); bool str=chance(1,3); L("%s into %zu characters (%zu needed)",op>=20?"public key address":nm[op],room,want.size()); budget(2000000000ull); long r=0; std::string got; bool ran=false; bool hit=guarded(oom,2,[&]{ char*c=(char*)o.p; size_t n=o.n; std::string x; PrivateKey k(h.key.data(),comp,nw); PublicKey p=k.publicKey(); HDPrivateKey hk(h.key.data(),h.cc.data(),h.depth,h.pfp.data(),h.child,nw,tys[ty]); switch(op){ case 0: if(str) x=k.wif(); else r=k.wif(c,n); break; case 1: if(choose(2)){ if(str) x=k.address(); else r=k.address(c,n); } else if(str) x=k.legacyAddress(); else r=k.legacyAddress(c,n); break; case 2: if(str) x=k.segwitAddress(); else r=k.segwitAddress(c,n); break; case 3: if(str) x=k.nestedSegwitAddress(); else r=k.nestedSegwitAddress(c,n); break; case 4: if(str) x=hk.xprv(); else r=hk.xprv(c,n); break; case 5: if(str) x=hk.xpub().xpub(); else r=hk.xpub(c,n); break; case 6: { HDPublicKey q=hk.xpub(); if(str) x=q.xpub(); else r=q.xpub(c,n); break; } case 7: if(choose(2)){ if(str) x=hk.address(); else r=hk.address(c,n); } else { HDPublicKey q=hk.xpub(); if(str) x=q.address(); else r=q.address(c,n); } break; case 8: { Script s(sc.data(),sc.size()); if(s.length()>1){ if(str) x=s.address(nw); else r=s.address(c,n,nw); } break; } case 9: if(str) x=k.toString(); else r=k.toString(c,n); break; case 10: if(str) x=hk.toString(); else r=hk.toString(c,n); break; case 11: { HDPublicKey q=hk.xpub(); if(str) x=q.toString(); else r=q.toString(c,n); break; } case 20: if(str) x=p.legacyAddress(nw); else r=p.legacyAddress(c,n,nw); break; case 21: if(str) x=p.segwitAddress(nw); else r=p.segwitAddress(c,n,nw); break; default: if(str) x=p.nestedSegwitAddress(nw); else r=p.nestedSegwitAddress(c,n,nw); } { Host hh; got=x; } ran=true; }); if(!ran) return;
  if(op==8&&want.empty()&&sc.size()){ CHECK(str? got.empty(): r==0,"accepted","script %s was given the address %s",hx(sc).c_str(),str?esc(got).c_str():esc(o.str(room)).c_str()); return; } if(str){ CHECK(got==want||(hit&&got.empty()),"content","text is %s, expected %s",esc(got).c_str(),want.c_str()); return; } CHECK(r>=0,"content","negative length"); if(r==0){ CHECK(hit||room<want.size()+40,"rejected","%s was not written although there is room for %zu characters",want.c_str(),room); count("probe.not_written"); return; } CHECK((size_t)r>=want.size()&&room>=want.size()&&o.str(want.size())==want,"content","text is %s (%ld), expected %s",esc(o.str(r)).c_str(),r,want.c_str()); for(size_t i=want.size();i<room;i++) CHECK(o.p[i]==0,"content","no terminator after %s",want.c_str()); count("probe.written"); }
// ---------------------------------------------------------------- hex forms of public keys and wire objects, numbers
static Bytes hexPairs(const std::string&t){ Bytes b; auto v=[](char ch){ return isdigit((uint8_t)ch)?ch-'0':(tolower(ch)-'a'+10); }; for(size_t i=0;i+1<t.size()&&isxdigit((uint8_t)t[i])&&isxdigit((uint8_t)t[i+1]);i+=2) b.push_back(v(t[i])*16+v(t[i+1])); return b; }
static void inPub(bool dmg){ bool comp=choose(3); Bytes b=pubOf(key32(),comp); if(chance(1,4)){ nontrivial(); count("fault.bad_payload"); switch(choose(5)){ case 0: b[0]=choose(9); break; case 1: b[1+choose(b.size()-1)]^=1<<choose(8); break; case 2: b.resize(oneOf({0,1,32,33,34,64,66})); break; case 3: { Bytes x= choose(2)? be(P_) : Bytes(32,0xff); std::copy(x.begin(),x.end(),b.begin()+1); break; } default: if(b.size()==65){ Point P; Bytes c(b.begin(),b.begin()+33); c[0]=2+(b[64]&1); if(parseSec(c,P)){ Bytes n=sec(neg(P),false); b=n; b[64]^=1; } } else b[0]=4; } }
  int how=choose(5); if(how==4){ // x-only
    b.resize(33); Bytes x(b.begin()+1,b.end()); size_t room= chance(1,5)? choose(32) : 32+choose(3); Room in(room); memset(in.p,0x55,room); memcpy(in.p,x.data(),std::min<size_t>(32,room)); L("x-only key %s in %zu bytes",hx(x).c_str(),room); budget(2000000000ull); bool ok=false; Bytes got; { Dev d; ECPoint p; size_t r=p.from_x(in.p,in.n); ok=r!=0&&p.isValid(); Host h; if(ok) got=B(p.point,64); } Bytes c{2}; app(c,x); Point P; bool may=room>=32&&parseSec(c,P); CHECK(ok==may,ok?"accepted":"rejected","x-only key %s in %zu bytes",hx(x).c_str(),room); if(ok){ Bytes f=sec(P,false); f.erase(f.begin()); CHECK(got==f,"content","x-only key %s gives %s",hx(x).c_str(),hx(got).c_str()); } count(ok?"probe.text_accepted":"probe.text_rejected"); return; }
  std::string t=hex(b); if(chance(1,4)) for(auto&ch:t) if(choose(2)) ch=toupper(ch); if(dmg) t=garble(t,BHEX); Typed y(t,how!=1,0); Bytes in=hexPairs(y.t); bool whole=in.size()*2==y.t.size(); size_t need= in.size()&&in[0]==4?65:33; Point P; bool may= in.size()>=need&&in[0]>=2&&in[0]<=4&&parseSec(Bytes(in.begin(),in.begin()+need),P), must= may&&whole&&in.size()==need; L("public key %s",esc(y.t).c_str()); budget(2000000000ull); bool ok=false; Bytes got; std::string back; { Dev d; std::string arg=y.t; auto see=[&](const ECPoint&p){ ok=p.isValid(); if(ok){ uint8_t o[65]; size_t l=p.sec(o,65); std::string x=p.toString(); Host h; got=B(o,l); back=x; } }; switch(how){ case 0: { PublicKey p(y.p); see(p); break; } case 1: { PublicKey p; p.fromString(y.p,y.n); see(p); break; } case 2: { ECPoint p(y.p); see(p); break; } default: { PublicKey p; p.parse(arg); see(p); } } }
  if(ok){ CHECK(may,"accepted","public key %s was accepted",esc(y.t).c_str()); Bytes w(in.begin(),in.begin()+need); CHECK(got==w&&back==hex(w),"content","public key %s became %s",esc(y.t).c_str(),hx(got).c_str()); } else CHECK(!must,"rejected","public key %s was refused",esc(y.t).c_str()); count(ok?"probe.text_accepted":"probe.text_rejected"); }
static void inHex(bool dmg){ GenOpt g; g.big=chance(1,6); g.maxIn=2; g.maxOut=2; int k=choose(11); static const char*nm[]={"script","witness","txin","txout","tx","segwit_tx","electrum","signature","schnorr_signature","point","scalar"}; const Kind*K=nullptr; for(int i=0;i<nkinds;i++) if(!strcmp(kinds[i].name,nm[k])) K=&kinds[i]; Msg m=K->gen(g); std::string t=hex(m.enc); if(chance(1,4)) for(auto&ch:t) if(choose(2)) ch=toupper(ch); if(dmg) t=garble(t,BHEX); bool cs=choose(2); Typed y(t,cs,0); L("%s as text: %s",nm[k],esc(y.t).c_str()); budget(2000000000ull); Bytes in=hexPairs(y.t); parse_status sa,sb; std::string da,db; { std::unique_ptr<Obj> a,b; { Dev d; a.reset(K->make()); b.reset(K->make()); if(y.cstr) a->s()->fromString(y.p); else a->s()->fromString(y.p,y.n); if(in.size()) b->s()->parse(in.data(),in.size()); else { uint8_t z=0; b->s()->parse(&z,(size_t)0); } sa=a->s()->getStatus(); sb=b->s()->getStatus(); } if(sa==PARSING_DONE) da=a->dump(); if(sb==PARSING_DONE) db=b->dump(); std::string back; if(!dmg&&sa==PARSING_DONE){ Dev d; std::string x=a->s()->toString(); Host h; back=x; } if(!dmg){ CHECK(sa==PARSING_DONE,"rejected","%s was refused: %s",nm[k],esc(y.t).c_str()); CHECK(da==m.dump,"content","%s read from text differs: %s",nm[k],diff(m.dump,da).c_str()); CHECK(back==hex(m.emit.size()?m.emit:m.enc),"content","%s comes back as %s",nm[k],esc(back).c_str()); } { Dev d; a.reset(); b.reset(); } }
  CHECK(sa==sb||(sa!=PARSING_DONE&&sb!=PARSING_DONE),"content","%s read from text %s is %s, from the same bytes %s",nm[k],esc(y.t).c_str(),stName(sa),stName(sb)); CHECK(da==db,"content","%s read from text differs from the same bytes: %s",nm[k],diff(db,da).c_str()); count(sa==PARSING_DONE?"probe.text_accepted":"probe.text_rejected"); }
static void recode(bool dmg){ Bytes b=someBytes(); uint8_t fl=choose(4); bool to=choose(2); std::string h=hex(b),c=base64(b,!(fl&1),fl&2),t= to?c:h; if(dmg) t=garble(t,to?B64:BHEX); { size_t n=strlen(t.c_str()); t.resize(n); } L("%s to %s: %s",to?"base64":"hex",to?"hex":"base64",esc(t).c_str()); budget(200000000ull); std::string got; { Dev d; std::string x= to? base64ToHex(t,fl) : hexToBase64(t,fl); Host hh; got=x; } if(to){ Bytes s; if(unbase64(t,s,!(fl&1),fl&2)) CHECK(got==hex(s),"content","base64 %s is hex %s",esc(t).c_str(),esc(got).c_str()); else { Room o(t.size()+8); size_t r; { Dev d; r=fromBase64(t,o.p,o.n,fl); } CHECK(got.empty()||got==hex(o.first(r)),"content","damaged base64 %s is hex %s",esc(t).c_str(),esc(got).c_str()); } } else { Bytes s=hexPairs(t); if(s.size()*2==t.size()) CHECK(got==base64(s,!(fl&1),fl&2),"content","hex %s is base64 %s",esc(t).c_str(),esc(got).c_str()); } count("probe.recoded"); }
static void number(){ u64 v; switch(choose(4)){ case 0: v=oneOf({0,1,0xfc,0xfd,0xfe,0xff,0x100,0xffff,0x10000,0x10001,0xffffffffull,0x100000000ull,0x100000001ull,0xffffffffffffffffull,0x8000000000000000ull}); break; case 1: v=choose(70000); break; case 2: v=((u64)choose(65536)<<48)^((u64)choose(65536)<<32)^((u64)choose(65536)<<16)^choose(65536); v>>=choose(64); break; default: v=1ull<<choose(64); v+=choose(3); v--; }
  Bytes w=varint(v); size_t room= choose(3)? w.size()+choose(3) : choose(10); Room o(room); size_t n=1+choose(16); Room le(n),be_(n); L("number %llu, room for %zu, %zu bytes",(unsigned long long)v,room,n); budget(100000000ull); size_t r,l; u64 back=0,bl,bb; { Dev d; l=lenVarInt(v); r=writeVarInt(v,o.p,o.n); if(r) back=readVarInt(o.p,r); intToLittleEndian(v,le.p,n); intToBigEndian(v,be_.p,n); bl=littleEndianToInt(le.p,n); bb=bigEndianToInt(be_.p,n); } CHECK(l==w.size(),"content","length of varint %llu is %zu",(unsigned long long)v,l); CHECK(r==(room>=w.size()?w.size():0),"content","varint %llu into %zu bytes: %zu",(unsigned long long)v,room,r); if(r){ CHECK(o.first(r)==w,"content","varint %llu is %s",(unsigned long long)v,hx(o.first(r)).c_str()); CHECK(back==v,"content","varint %llu is read back as %llu",(unsigned long long)v,(unsigned long long)back); if(choose(2)){ size_t k=1+choose(r); Room c(k); memcpy(c.p,o.p,k); u64 x; { Dev d; x=readVarInt(c.p,k); } CHECK(x==(k==r?v:0),"content","%zu bytes of varint %llu are read as %llu",k,(unsigned long long)v,(unsigned long long)x); nontrivial(); count("fault.cut_number"); } }
  Bytes ew; for(size_t i=0;i<n;i++) ew.push_back(i<8?(v>>(8*i))&255:0); CHECK(le.first(n)==ew,"content","%llu in %zu bytes is %s",(unsigned long long)v,n,hx(le.first(n)).c_str()); std::reverse(ew.begin(),ew.end()); CHECK(be_.first(n)==ew,"content","%llu in %zu bytes (big endian) is %s",(unsigned long long)v,n,hx(be_.first(n)).c_str()); u64 m= n<8? v&((1ull<<(8*n))-1) : v; CHECK(bl==m&&bb==m,"content","%llu in %zu bytes is read back as %llu and %llu",(unsigned long long)v,n,(unsigned long long)bl,(unsigned long long)bb); }
// output descriptors: the checksum people compare
static std::string descsum(const std::string&t){ static const char*IN="0123456789()[],'/*abcdefgh@:$%{}IJKLMNOPQRSTUVWXYZ&+-.;<=>?!^_|~ijklmnopqrstuvwxyzABCDEFGH`#\"\\ "; static const u64 gen[5]={0xf5dee51989ull,0xa9fdca3312ull,0x1bab10e32dull,0x3706b1677aull,0x644d626ffdull}; std::vector<int> sy; std::vector<int> grp; for(char ch:t){ const char*q= ch? strchr(IN,ch) : nullptr; if(!q) return ""; int v=q-IN; sy.push_back(v&31); grp.push_back(v>>5); if(grp.size()==3){ sy.push_back(grp[0]*9+grp[1]*3+grp[2]); grp.clear(); } } if(grp.size()==1) sy.push_back(grp[0]); else if(grp.size()==2) sy.push_back(grp[0]*3+grp[1]); for(int i=0;i<8;i++) sy.push_back(0); u64 c=1; for(int v:sy){ u64 top=c>>35; c=((c&0x7ffffffffull)<<5)^(u64)v; for(int i=0;i<5;i++) if((top>>i)&1) c^=gen[i]; } c^=1; std::string o; for(int i=0;i<8;i++) o+=B32[(c>>(5*(7-i)))&31]; return o; }
static void descriptor(bool dmg){ HD h=genHD(); std::string x=base58check(hdPubRaw(h,PUBV[choose(10)])),t; switch(choose(4)){ case 0: t="wpkh(["+hex(blob(4))+"/84h/0h/0h]"+x+"/0/*)"; break; case 1: t="wsh(sortedmulti("+std::to_string(1+choose(3))+","+x+"/0/*,"+x+"/1/*))"; break; case 2: t="pkh("+hex(pubOf(h.key))+")"; break; default: { size_t n=choose(30); for(size_t i=0;i<n;i++) t+=(char)(32+choose(95)); } } if(dmg) t=garble(t,"0123456789()[],'/*hH#abcdef"); bool str=chance(1,3); Typed y(t,str,str||!chance(1,5)?0:1+choose(3)); std::string given= str? y.t : std::string(y.p,y.n); std::string want=descsum(given); size_t room=choose(4)?8+choose(4):choose(8); Room o(room); L("descriptor %s into %zu",esc(given).c_str(),room); budget(50000000ull); size_t r=0; std::string got; { Dev d; if(str){ std::string q=descriptorChecksum(y.t); Host hh; got=q; } else r=descriptorChecksum(y.p,y.n,(char*)o.p,room); } if(str){ CHECK(got==want,"content","checksum of %s is %s, expected %s",esc(given).c_str(),esc(got).c_str(),want.c_str()); return; } if(room<8||want.empty()){ CHECK(r==0,"accepted","checksum of %s in %zu characters: %zu written",esc(given).c_str(),room,r); return; } CHECK(r==8&&o.str(8)==want,"content","checksum of %s is %s, expected %s",esc(given).c_str(),esc(o.str(8)).c_str(),want.c_str()); for(size_t i=8;i<room;i++) CHECK(o.p[i]==0,"content","no terminator after the checksum"); count("probe.checksum"); }
static void inTxid(bool dmg){ Bytes id=blob(32); std::string t=hex(id); if(dmg) t=garble(t,BHEX); if(chance(1,10)){ t=t.substr(0,choose(66)); } Typed y(t,true); L("txid %s",esc(y.t).c_str()); bool ok=y.t.size()==64&&inAl(y.t,"0123456789abcdefABCDEF"); Bytes got; u32 idx,seq; int how=choose(2); { Dev d; if(how){ TxIn i(y.p,7,9); Host h; got=B(i.hash,32); idx=i.outputIndex; seq=i.sequence; } else { Script s((uint8_t*)"\x51",1); TxIn i(y.p,7,s,9); Host h; got=B(i.hash,32); idx=i.outputIndex; seq=i.sequence; } } if(ok){ Bytes w=unhex(y.t); std::reverse(w.begin(),w.end()); CHECK(got==w&&idx==7&&seq==9,"content","txid %s became %s",esc(y.t).c_str(),hx(got).c_str()); count("probe.text_accepted"); } else if(y.t.size()<64) CHECK(got==Bytes(32,0),"accepted","short txid %s became %s",esc(y.t).c_str(),hx(got).c_str()); }
static void inPsbt(bool dmg,bool oom){ GenOpt g; g.big=chance(1,6); g.maxIn=2; g.maxOut=2; PsbtMsg m=genPsbt(g); std::string t=base64(m.enc); if(dmg) t=garble(t,B64); L("PSBT text %s",esc(t).c_str()); Bytes b; bool strict=unbase64(t,b); std::string a; bool va=false; budget(2000000000ull); bool ran=false; size_t r=0; bool hit=guarded(oom,6,[&]{ PSBT p; r=p.parseBase64(t); va=p.isValid(); if(va){ Host h; a=dumpL(p); } ran=true; }); if(!ran) return; if(!strict){ if(va){ size_t i=t.find('='); CHECK(i!=std::string::npos,"accepted","damaged base64 was accepted as a PSBT"); } return; } std::string w; bool vb; { Dev d; PSBT q; q.parse(b.data(),b.size()); vb=q.isValid(); if(vb){ Host h; w=dumpL(q); } } if(!dmg) CHECK(vb,"rejected","well-formed PSBT refused"); if(!hit) CHECK(va==vb,"content","PSBT read as text is %svalid, read as bytes %svalid",va?"":"not ",vb?"":"not "); if(va) CHECK(vb&&a==w,"content","PSBT read as text differs: %s",diff(w,a).c_str()); if(!dmg&&!hit){ std::string back; { Dev d; PSBT q; q.parse(b.data(),b.size()); std::string x=q.toBase64(); Host h; back=x; } CHECK(back==base64(m.enc)||back==base64(psbtOut(m.m)),"content","PSBT written as text: %s",esc(back).c_str()); } count(va?"probe.text_accepted":"probe.text_rejected"); }
// raw (not text) outputs into a block of exactly the size the caller names
static void outRaw(){ int k=choose(4); Bytes r=blob(32),s=blob(32); if(chance(1,3)) std::fill(r.begin(),r.begin()+choose(32),0); if(chance(1,3)) std::fill(s.begin(),s.begin()+choose(32),0); if(chance(1,3)) r[0]^=0x80; if(r==Bytes(32,0)) r[31]=1; if(s==Bytes(32,0)) s[31]=1; Bytes pub=pubOf(genHD().key); bool cmp=choose(2); budget(100000000ull); size_t ret=0;
  if(k<2){ Bytes w=der(r,s),raw=r; raw.insert(raw.end(),s.begin(),s.end()); raw.push_back(choose(4)); size_t need= k?65:w.size(); Room o(roomFor(need)); L("signature %s as %s into %zu",hx(raw).c_str(),k?"r,s,index":"DER",o.n); size_t len; { Dev d; Signature g; g.fromBin(raw.data(),65); len=g.length(); if(k) g.bin(o.p,o.n); else ret=g.der(o.p,o.n); } CHECK(len==w.size(),"content","signature length %zu, expected %zu",len,w.size());
    if(k){ size_t m=std::min(o.n,need); CHECK(o.first(m)==Bytes(raw.begin(),raw.begin()+m),"content","signature in %zu bytes is %s, expected %s",o.n,hx(o.first(m)).c_str(),hx(raw).c_str()); }
    else if(o.n>=need) CHECK(ret==need&&o.first(need)==w,"content","DER signature in %zu bytes: %zu returned, %s, expected %s",o.n,ret,hx(o.first(need)).c_str(),hx(w).c_str()); else CHECK(ret<=o.n,"accepted","DER signature of %zu bytes: %zu reported written into %zu",need,ret,o.n); count("probe.raw_signature"); return; }
  Point P; if(!parseSec(pub,P)) harness("own public key"); Bytes w= k==2? sec(P,cmp) : Bytes(pub.begin()+1,pub.begin()+33); size_t need=w.size(); Room o(roomFor(need)); L("point %s %s into %zu",hx(pub).c_str(),k==2?(cmp?"compressed":"uncompressed"):"x",o.n); { Dev d; ECPoint e(pub.data()); e.compressed=cmp; if(k==2) ret=e.sec(o.p,o.n); else ret=e.x(o.p,o.n); }
  if(o.n>=need) CHECK(ret==need&&o.first(need)==w,"content","point in %zu bytes: %zu returned, %s, expected %s",o.n,ret,hx(o.first(need)).c_str(),hx(w).c_str()); else CHECK(ret<=o.n,"accepted","point of %zu bytes: %zu reported written into %zu",need,ret,o.n); count("probe.raw_point"); }
// one place of a checksummed text takes every value a byte can have: none of the 255 slips may pass for an address or a key
static void slip(){ int k=choose(4); std::string t; static const char*hrps[]={"bc","tb","bcrt"}; static const char*nm[]={"address","address","WIF","xpub"}; bool cap=false; switch(k){ case 0: { Bytes b{(uint8_t)oneOf({0,5,0x6f,0xc4})}; app(b,blob(20)); t=base58check(b); break; } case 1: t=segwitAddr(hrps[choose(3)],0,blob(choose(2)?20:32),1); cap=choose(2); if(cap) for(auto&ch:t) ch=toupper(ch); break; case 2: { Bytes b{(uint8_t)(choose(2)?0x80:0xef)}; app(b,genHD().key); if(choose(2)) b.push_back(1); t=base58check(b); break; } default: t=base58check(hdPubRaw(genHD(),PUBV[choose(10)])); }
  size_t at=choose(t.size()); L("%s %s, every byte at place %zu",nm[k],t.c_str(),at); nontrivial(); count("fault.text_typo"); char was=t[at]; budget(4000000000ull); for(int v=0;v<256;v++){ std::string u=t; u[at]=(char)v; bool acc; { Dev d; if(k<2){ Script o(u.c_str()); acc=o.scriptLen>0; } else if(k==2){ PrivateKey o; acc=o.fromWIF(u.c_str())&&o.isValid(); } else { HDPublicKey o(u.c_str()); acc=o.isValid(); } }
    std::string seen=u.c_str(); bool may=v==(uint8_t)was; if(!may){ Bytes pay,pr; std::string hrp; int ver; u32 c; if(k==1) may=unsegwitAddr(seen,hrp,ver,pr,c); else may=unbase58check(prefixOf(seen,B58),pay); } CHECK(may||!acc,"accepted","%s %s was accepted: place %zu of %s is byte 0x%02x",nm[k],esc(seen).c_str(),at,t.c_str(),v); CHECK(acc||v!=(uint8_t)was,"rejected","%s %s was refused",nm[k],t.c_str()); } }
static void c17(){ rngPlan(false); Console c; { Dev d; c.k=new PrivateKey; c.x=new HDPrivateKey; c.q=new HDPublicKey; c.s=new Script; } int n=2+choose(9); for(int i=0;i<n;i++){ bool dmg=chance(3,5),oom=chance(1,7); int k=choose(22); static const char*nm[]={"wif","xprv","xpub","address","address","path","decode","decode","encode","out","txid","psbt","wif","decode","pubkey","hex_object","recode","number","out","descriptor","raw","slip"}; count((std::string("kind.text_")+nm[k]).c_str()); switch(k){ case 0: case 12: inWif(c,dmg,oom); break; case 1: inXprv(c,dmg,oom); break; case 2: inXpub(c,dmg,oom); break; case 3: case 4: inAddr(c,dmg,oom); break; case 5: inPath(dmg,oom); break; case 6: case 7: case 13: dec(choose(9),dmg,oom); break; case 8: enc(choose(9),oom); break; case 9: case 18: outText(oom); break; case 10: inTxid(dmg); break; case 14: inPub(dmg); break; case 15: inHex(dmg); break; case 16: recode(dmg); break; case 17: number(); break; case 19: descriptor(dmg); break; case 20: outRaw(); break; case 21: slip(); break; default: inPsbt(dmg,oom); } } { Dev d; delete c.k; delete c.x; delete c.q; delete c.s; } checkNoLeak("after the session"); }
static Reg r17("C17",c17);
}
