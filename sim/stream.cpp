// C01..C05: receiving and sending over links.
#include "world.h"
#include <string.h>
#include <set>
#include <new>
namespace sim {
using namespace ref;
static Obj*mkObj(const Kind&k){ Dev d; return k.make(); }
static void rmObj(Obj*o){ Dev d; delete o; }
static std::string dumpObj(Obj*o){ return o->dump(); }
// One delivery of (part of) a message through the library's own byte buffer API or a live link.
struct Link{ Obj*o; const Bytes&enc; size_t sent=0,done=0; bool hex,upper; SimIn in; bool live; // live: SimIn stream object shared by all calls
  Bytes pend; // buffer API: arrived, unread
  Link(Obj*o,const Bytes&e):o(o),enc(e){ int m=choose(4); live= m<2; hex= m==3; upper= hex&&chance(1,4); }
  std::string chars(const Bytes&b){ std::string s=hx(b); if(upper) for(auto&c:s) if(c>='a') c-=32; return s; }
};

// ---------------------------------------------------------------- C01
static void receiveGood(Obj*o,const Msg&m,const char*who,bool async){
  Link l(o,m.enc); int mode=choose(6); bool polls=chance(1,2); size_t N=m.enc.size(); Bytes tail= chance(1,2)? blob(1+choose(8)) : Bytes();
  L("%s: %zu bytes over %s, chunk mode %d%s%s",who,N,l.live?"live link":l.hex?"hex buffer":"raw buffer",mode,polls?", empty polls":"",tail.size()?", followed by other data":"");
  size_t consumed=0, halfChars=0; bool odd= l.hex&&chance(1,2); std::string hexbuf; int guard=0; size_t ncalls=0;
  size_t plannedCuts= N>600? 3:0; (void)plannedCuts;
  bool perByte = mode==1||mode==2; size_t dense = perByte&&N>3000? 1:0; // long messages: dense chunks only at a window
  size_t denseFrom= dense? choose(N):0;
  while(true){
    size_t rem=N-l.sent; size_t c = dense && !(l.sent>=denseFrom&&l.sent<denseFrom+400) ? std::min(rem, l.sent<denseFrom? denseFrom-l.sent : rem) : std::min(rem,chunkSize(mode,rem));
    if(polls && chance(1,6)){ c=0; count("sched.empty_poll"); }
    bool lastChunk = l.sent+c==N;
    Bytes chunk(m.enc.begin()+l.sent,m.enc.begin()+l.sent+c); Bytes extra= lastChunk? tail : Bytes();
    size_t ret=0, cons=0; bool late=false; bool lateOpen=false;
    budget(400000000ull);
    if(l.live){
      if(async && c>1 && chance(1,2)){ late=true; size_t first=choose(c); Bytes a(chunk.begin(),chunk.begin()+first), b(chunk.begin()+first,chunk.end()); app(b,extra); l.in.polls=0; l.in.late.clear(); size_t at=1+choose(chance(1,3)?3:2*first+6); l.in.push(a); l.in.late.push_back({at,b}); nontrivial(); }
      else { l.in.push(chunk); l.in.push(extra); l.in.late.clear(); }
      size_t before=l.in.pos; { Dev d; ret=l.in.parse(o->s()); } cons=l.in.pos-before;
      for(auto&x:l.in.late) if(x.b.size()){ l.in.push(x.b); x.b.clear(); lateOpen=true; }
      (void)lateOpen;
    }else if(!l.hex){
      Bytes buf=l.pend; app(buf,chunk); app(buf,extra); uint8_t*p=(uint8_t*)malloc(buf.size()?buf.size():1); memcpy(p,buf.data(),buf.size()); { Dev d; ret=o->s()->parse(p,buf.size(),RAW); } free(p); cons=ret; l.pend.clear(); if(ret<=buf.size()) l.pend.assign(buf.begin()+ret,buf.end());
    }else{
      hexbuf+=l.chars(chunk); hexbuf+=l.chars(extra); size_t have=hexbuf.size(); size_t give=have; if(odd&&have>0&&!lastChunk&&chance(1,2)){ give=have-1; count("sched.split_hex_pair"); }
      char*p=(char*)malloc(give+1); memcpy(p,hexbuf.data(),give); p[give]=0; if(chance(1,4)){ count("kind.string_api"); Dev d; ret=o->s()->parse(std::string(p,give)); } else { if(give) p=(char*)realloc(p,give); Dev d; ret=o->s()->parse((const char*)p,give,HEX_ENCODING); } free(p); cons=ret; if(2*ret<=hexbuf.size()) hexbuf.erase(0,2*ret); (void)halfChars;
    }
    l.sent+=c; ncalls++; consumed+=cons; parse_status st=o->s()->getStatus();
    L(" +%zu%s -> ret %zu, %s",c,extra.size()?"+":"",ret,stName(st));
    if(c&&c<N) { count("sched.chunk"); nontrivial(); }
    CHECK(ret==cons,"byte-count","%s: call reported %zu bytes but took %zu",who,ret,cons);
    CHECK(consumed<=N,"overconsume","%s: consumed %zu of a %zu byte encoding",who,consumed,N);
    CHECK(st!=PARSING_FAILED,"spurious-failure","%s: well-formed message rejected after %zu of %zu bytes (call %zu)",who,consumed,N,ncalls);
    if(consumed<N) CHECK(st==PARSING_INCOMPLETE,"early-done","%s: reports done after %zu of %zu bytes",who,consumed,N);
    if(consumed==N){ CHECK(st==PARSING_DONE,"late-done","%s: all %zu bytes consumed but status is %s",who,N,stName(st)); break; }
    if(!late && !(l.hex&&odd)) CHECK(consumed==l.sent,"stall","%s: %zu bytes arrived, only %zu consumed",who,l.sent,consumed);
    if(l.sent==N && ++guard>6) fail("stall","%s: all %zu bytes arrived, parser stuck at %zu",who,N,consumed);
    if(l.live) CHECK(l.in.overreads==0,"read-without-data","%s: read from the link with nothing available",who);
  }
  std::string got=dumpObj(o); CHECK(got==m.dump,"content","%s: content differs; %s",who,diff(m.dump,got).c_str());
}
// ---------------------------------------------------------------- several messages through one byte stream of the library, buffer after buffer
struct UserMsg: public Streamable{ // a message type of the application: moves its bytes in blocks
  Bytes b; u32 lastSeen=256; size_t length() const override{ return 1+b.size(); }
  size_t from_stream(ParseStream*s) override{ size_t n=0; if(status==PARSING_DONE){ bytes_parsed=0; b.clear(); } status=PARSING_INCOMPLETE; if(s->available()&&bytes_parsed==0){ int c=s->read(); Host h; b.resize(c); n++; } while(s->available()&&bytes_parsed+n>0&&bytes_parsed+n<1+b.size()){ size_t at=bytes_parsed+n-1; size_t k=s->read(b.data()+at,b.size()-at); if(!k) break; n+=k; lastSeen=(u32)s->getLast(); } bytes_parsed+=n; if(bytes_parsed>0&&bytes_parsed==1+b.size()) status=PARSING_DONE; return n; }
  size_t to_stream(SerializeStream*s,size_t off) const override{ size_t n=0; if(s->available()&&off==0){ s->write((uint8_t)b.size()); n++; } if(off+n>0&&off+n<1+b.size()) n+=s->write(b.data()+off+n-1,b.size()-(off+n-1)); return n; } };
struct UserObj: Obj{ UserMsg v; Streamable*s()override{ return &v; } std::string dump()override{ return hx(v.b); } };
struct Item{ Bytes e; std::string dump; Obj*o=nullptr; const char*name="block"; };
static std::vector<Item> batch(bool sending,Bytes&all){ std::vector<Item> v; int n=2+choose(4); GenOpt g; g.big=false; for(int i=0;i<n;i++){ Item t; int w=choose(5); if(w==0){ t.e=blob(choose(40)); } else if(w==1){ UserObj*u=new UserObj; t.o=u; t.name="user message"; Bytes b=blob(choose(200)); t.e={(uint8_t)b.size()}; app(t.e,b); t.dump=hx(b); if(sending) u->v.b=b; } else { const Kind&k=kinds[pickKind()]; Msg m=k.gen(g); t.o=mkObj(k); t.name=k.name; t.dump=m.dump; t.e= sending? m.emit : m.enc; if(sending){ budget(400000000ull); Dev d; t.o->s()->parse(m.enc.data(),m.enc.size(),RAW); } } app(all,t.e); v.push_back(t); } nontrivial(); return v; }
static void endBatch(std::vector<Item>&v){ for(auto&t:v) if(t.o) rmObj(t.o); }
static void receiveBatch(){ Bytes all; std::vector<Item> v=batch(false,all); size_t sent=0,i=0,at=0; int mode=choose(6); if(mode<3&&all.size()>1500) mode=4; L("%zu items, %zu bytes, buffer mode %d",v.size(),all.size(),mode); count("kind.batch"); int idle=0;
  while(i<v.size()||sent<all.size()){ if(sent==all.size()&&++idle>3){ for(size_t j=i;j<v.size();j++) if(v[j].e.size()) fail("stall","all bytes arrived, item %zu (%s) is not complete",j,v[j].name); } size_t rem=all.size()-sent; size_t c=std::min(rem,chunkSize(mode,rem)); if(chance(1,10)) c=0; Bytes buf(all.begin()+sent,all.begin()+sent+c); bool hex=choose(2); std::string text=hx(buf); if(hex&&chance(1,3)) text+= oneOf({0,1})? "\n" : chance(1,2)? "zz" : "  a0"; size_t n= hex? text.size() : c; int how=choose(hex?3:2); char*mem=(char*)malloc(n+1); memcpy(mem,hex?text.data():(char*)buf.data(),n); if(!(hex&&how==2)){ char*q=(char*)malloc(n?n:1); memcpy(q,mem,n); free(mem); mem=q; } else mem[n]=0; sent+=c;
    alignas(16) char store[sizeof(ParseByteStream)]; ParseByteStream*s; { Dev d; s= hex? (how==2? new(store) ParseByteStream((const char*)mem) : new(store) ParseByteStream((const uint8_t*)mem,n,HEX_ENCODING)) : new(store) ParseByteStream((const uint8_t*)mem,n); } size_t used=0; int last=-1; auto avail=[&]{ size_t a; { Dev d; a=s->available(); } if(used<c) CHECK(a>=c-used&&a<=(n+1),"byte-count","%zu bytes are left in the buffer, the stream reports %zu",c-used,a); else CHECK(a==0,"byte-count","nothing is left in the buffer, the stream reports %zu",a); int l=s->getLast(); CHECK(l==last,"content","last byte read is %d, the stream reports %d",last,l); };
    avail(); int turns=0; while(i<v.size()){ Item&t=v[i]; size_t need=t.e.size()-at,left=c-used; if(t.o){ size_t r; budget(400000000ull); { Dev d; r=s->parse(t.o->s()); } CHECK(r==std::min(need,left),"byte-count","%s: %zu bytes taken, expected %zu (%zu left in the buffer)",t.name,r,std::min(need,left),left); at+=r; used+=r; if(r) last=buf[used-1]; parse_status st=t.o->s()->getStatus(); if(at<t.e.size()){ CHECK(at==0||st==PARSING_INCOMPLETE,"early-done","%s: %zu of %zu bytes, status %s",t.name,at,t.e.size(),stName(st)); } else { CHECK(st==PARSING_DONE,"late-done","%s: all bytes consumed, status %s",t.name,stName(st)); std::string g=t.o->dump(); CHECK(g==t.dump,"content","%s: content differs; %s",t.name,diff(t.dump,g).c_str()); } }
      else if(choose(2)){ Bytes o(need+3,0xEE); size_t r; { Dev d; r=s->read(o.data(),need); } size_t w=std::min(need,left); CHECK(r==w,"byte-count","block read gives %zu of %zu bytes (%zu left)",r,need,left); CHECK(Bytes(o.begin(),o.begin()+r)==Bytes(t.e.begin()+at,t.e.begin()+at+r)&&o[r]==0xEE,"content","block read gives other bytes"); at+=r; used+=r; if(r) last=buf[used-1]; }
      else { while(need&&left){ int b; { Dev d; b=s->read(); } CHECK(b==t.e[at],"content","read gives %d, expected %d",b,t.e[at]); last=b; at++; used++; need--; left--; } }
      avail(); if(at==t.e.size()){ i++; at=0; turns=0; } else if(used==c&&++turns>=1) break; }
    if(used==c){ int b; { Dev d; b=s->read(); } CHECK(b==-1,"content","read past the end of the buffer gives %d",b); uint8_t x[4]; size_t r; { Dev d; r=s->read(x,4); } CHECK(r==0,"content","block read past the end of the buffer gives %zu bytes",r); } L(" buffer of %zu%s: item %zu at %zu",c,hex?" in hex":"",i,at); { Dev d; s->~ParseByteStream(); } free(mem); if(i>=v.size()) break; }
  endBatch(v); }
static void sendBatch(){ Bytes all; std::vector<Item> v=batch(true,all); size_t i=0,at=0,done=0; int mode=choose(6); if(mode<3&&all.size()>1500) mode=4; L("%zu items, %zu bytes, buffer mode %d",v.size(),all.size(),mode); count("kind.batch"); size_t guard=0;
  while(i<v.size()){ if(++guard>20*all.size()+100) fail("stall","no progress at item %zu",i); size_t rem=all.size()-done; size_t c=std::min(rem,chunkSize(mode,rem)); if(chance(1,10)) c=0; if(chance(1,10)) c+=choose(20); bool hex=choose(2); size_t n= hex? 2*c+choose(2) : c; int how=choose(2); uint8_t*mem=(uint8_t*)malloc(n?n:1); memset(mem,0xEE,n); alignas(16) char store[sizeof(SerializeByteStream)]; SerializeByteStream*s; { Dev d; s= hex? (how? new(store) SerializeByteStream((char*)mem,n) : new(store) SerializeByteStream(mem,n,HEX_ENCODING)) : new(store) SerializeByteStream(mem,n); } size_t used=0; Bytes want;
    auto avail=[&]{ size_t a; { Dev d; a=s->available(); } CHECK(a==c-used,"byte-count","there is room for %zu bytes, the stream reports %zu",c-used,a); };
    avail(); while(i<v.size()){ Item&t=v[i]; size_t need=t.e.size()-at,left=c-used,r=0; budget(400000000ull); if(t.o){ { Dev d; r=s->serialize(t.o->s(),at); } CHECK(r==std::min(need,left),"short-write","%s: %zu bytes written at %zu, expected %zu",t.name,r,at,std::min(need,left)); } else if(choose(2)){ { Dev d; r=s->write(t.e.data()+at,need); } CHECK(r==std::min(need,left),"short-write","block write: %zu of %zu bytes, room for %zu",r,need,left); } else while(r<need){ size_t k; { Dev d; k=s->write(t.e[at+r]); } CHECK(k==(r<left?1u:0u),"short-write","write reports %zu with room for %zu",k,left-std::min(r,left)); if(!k) break; r++; }
      want.insert(want.end(),t.e.begin()+at,t.e.begin()+at+r); at+=r; used+=r; avail(); if(at==t.e.size()){ i++; at=0; } else break; }
    if(used==c){ size_t k; { Dev d; k=s->write((uint8_t)7); } CHECK(k==0,"overrun","write into a full buffer reports %zu",k); } Bytes got=B(mem,used); if(hex){ std::string h((char*)mem,2*used); got=unhex(h); CHECK(hx(got)==h,"content","bad hex output"); } CHECK(got==want,"content","the buffer holds other bytes: %s",diff(hx(want),hx(got)).c_str()); done+=used; L(" buffer of %zu%s: item %zu at %zu",c,hex?" in hex":"",i,at); free(mem); }
  endBatch(v); }
static void c01(){ if(chance(1,7)){ receiveBatch(); checkNoLeak("after receiving"); return; } const Kind&k=kinds[pickKind()]; GenOpt g; Msg m=k.gen(g); L("kind %s",k.name); Obj*o=mkObj(k);
  if(chance(1,5)){ // the object held something before
    Msg p=k.gen(g); receiveGood(o,p,"previous message",false); count("probe.reused_object"); }
  receiveGood(o,m,"message",true); rmObj(o); checkNoLeak("after receiving"); }
static Reg r01("C01",c01);

// ---------------------------------------------------------------- C02
static void load(Obj*o,const Msg&m){ budget(400000000ull); size_t r; { Dev d; r=o->s()->parse(m.enc.data(),m.enc.size(),RAW); } if(o->s()->getStatus()!=PARSING_DONE||r!=m.enc.size()) fail("spurious-failure","well-formed message rejected: %zu of %zu bytes, status %s",r,m.enc.size(),stName(o->s()->getStatus())); }
static void sendAll(Obj*o,const Bytes&E,const char*who){
  size_t N=E.size(); size_t len; budget(400000000ull); { Dev d; len=o->s()->length(); } CHECK(len==N,"length","%s: length() is %zu, encoding has %zu bytes",who,len,N);
  int api=choose(5); int mode=choose(6); size_t off=0; Bytes total; size_t iter=0; L("%s: send %zu bytes, api %d, mode %d",who,N,api,mode); SimOut link; if(api<2){} 
  if(chance(1,3)&&N>0){ // resume by offset at an arbitrary place
    off=choose(N+1); total.assign(E.begin(),E.begin()+off); L(" resuming at %zu",off); count("sched.resume_offset"); nontrivial(); }
  bool dense=(mode==1||mode==2)&&N>3000; size_t denseFrom=dense?choose(N):0;
  while(true){ budget(400000000ull);
    size_t rem=N-off; size_t c= rem? (dense&&!(off>=denseFrom&&off<denseFrom+400)? std::min(rem, off<denseFrom? denseFrom-off:rem) : std::min(rem,chunkSize(mode,rem))) : choose(4); if(chance(1,8)){ c=0; count("sched.no_room"); } if(chance(1,8)) c+=choose(20); else if(chance(1,12)) c=rem+choose(600); // more room than data
    size_t ret; Bytes got;
    if(c&&c<rem){ count("sched.window"); nontrivial(); }
    if(api<2){ link.got.clear(); link.polls=0; link.late.clear(); bool late=false; link.room=c; if(c>1&&chance(1,3)){ late=true; size_t f=choose(c); link.room=f; link.late.push_back({1+choose(chance(1,3)?3:2*f+6),c-f}); nontrivial(); }
      { Dev d; ret=link.serialize(o->s(),off); } CHECK(link.refused==0,"write-without-room","%s: wrote at offset %zu with no room",who,off); got=link.got; link.room=0; CHECK(ret==got.size(),"byte-count","%s: offset %zu: reports %zu bytes, emitted %zu",who,off,ret,got.size()); if(!late) CHECK(ret==std::min(c,rem),"short-write","%s: offset %zu room %zu: emitted %zu of %zu",who,off,c,ret,std::min(c,rem)); }
    else if(api==4){ std::string t; size_t want= c? std::min(c,rem) : rem; { Dev d; t= chance(1,2)? ((const Streamable*)o->s())->serialize(off,c) : ((const Streamable*)o->s())->serialize((int)off,(int)c); } got=unhex(t); ret=got.size(); CHECK(ret==want&&hx(got)==t,"short-write","%s: offset %zu, %zu asked for as text: %zu of %zu",who,off,c,ret,want); count("kind.string_api"); }
    else{ bool hex=api==3; size_t bl= hex? 2*c+choose(2) : c; uint8_t*p=(uint8_t*)malloc(bl?bl:1); { Dev d; if(hex) ret=o->s()->serialize((char*)p,bl,off,HEX_ENCODING); else ret=o->s()->serialize(p,bl,off,RAW); }
      CHECK(ret==std::min(c,rem),"short-write","%s: offset %zu room %zu: reports %zu of %zu",who,off,c,ret,std::min(c,rem)); if(hex){ std::string h((char*)p,2*ret); got=unhex(h); CHECK(got.size()==ret && hx(got)==h,"content","%s: bad hex output",who); } else got=B(p,ret); free(p); }
    L(" offset %zu room %zu -> %zu",off,c,ret);
    for(size_t i=0;i<got.size();i++) CHECK(off+i<N&&got[i]==E[off+i],"content","%s: byte %zu of %zu differs: %02x, expected %02x",who,off+i,N,got[i],off+i<N?E[off+i]:0);
    app(total,got); if(off==N&&++iter>2) break; off+=ret; if(total.size()>N) fail("overrun","%s: emitted %zu of %zu bytes",who,total.size(),N);
    if(off<N && ++iter>20*N+400) fail("stall","%s: no progress at %zu",who,off); if(off==N && iter>2) iter=0;
  }
  CHECK(total==E,"content","%s: concatenation differs",who);
}
static Bytes oneShot(Streamable*s){ budget(400000000ull); size_t len; Bytes o; { Dev d; len=s->length(); } SimOut k; k.room=len+64; size_t r; { Dev d; r=k.serialize(s,0); } CHECK(r==k.got.size(),"byte-count","reports %zu bytes, emitted %zu",r,k.got.size()); CHECK(r==len,"length","length() is %zu, the encoding has %zu bytes",len,r); return k.got; }
Obj*signedObject(); // sessions.cpp: a PSBT or Electrum transaction some wallets have signed
// built by hand rather than received: counts that need more than one byte
static void sendBuilt(){ int w=choose(3); const Kind*K=nullptr; for(int i=0;i<nkinds;i++) if(!strcmp(kinds[i].name,w?"tx":"witness")) K=&kinds[i]; Obj*o=mkObj(*K); static const int ns[]={1,251,252,253,254,255,256,257,300}; int n=ns[choose(9)]; Bytes e; L("built %s with %d",w==0?"witness":w==1?"inputs":"outputs",n);
  if(w==0){ Witness*x=(Witness*)o->s(); e=varint(n); for(int i=0;i<n;i++){ Bytes b=blob(choose(4)); { Dev d; x->push(b.data(),b.size()); } app(e,varint(b.size())); app(e,b); } }
  else { Tx*x=(Tx*)o->s(); MTx m; m.ver=1+choose(3); m.lock=choose(0x7fffffff); int ni=w==1?n:1+choose(2),no=w==2?n:choose(3); for(int i=0;i<ni;i++){ MIn a; a.hash=blob(32); a.idx=choose(9); a.seq=0xfffffffeu+choose(2); if(chance(1,9)) a.wit.push_back(blob(choose(5))); m.in.push_back(a); } for(int i=0;i<no;i++){ MOut a; a.amt=choose(1000000); a.spk=blob(choose(5)); m.out.push_back(a); }
    { Dev d; x->version=m.ver; x->locktime=m.lock; for(auto&a:m.in){ uint8_t id[32]; for(int i=0;i<32;i++) id[i]=a.hash[31-i]; TxIn t(id,a.idx,a.seq); for(auto&b:a.wit) t.witness.push(b.data(),b.size()); x->addInput(t); } for(auto&a:m.out){ Script sc(a.spk.data(),a.spk.size()); TxOut t(a.amt,sc); x->addOutput(t); } } e=ser(m); }
  sendAll(o,e,"built object"); count("kind.built"); rmObj(o); checkNoLeak("after sending"); }
static void c02(){ if(chance(1,20)){ sendBuilt(); return; } if(chance(1,8)){ sendBatch(); checkNoLeak("after sending"); return; } if(chance(1,6)){ Obj*o=signedObject(); sendAll(o,oneShot(o->s()),"signed object"); count("kind.signed"); rmObj(o); checkNoLeak("after sending"); return; }
  int kk=pickKind(); const Kind&k=kinds[kk]; GenOpt g; Msg m=k.gen(g); L("kind %s",k.name); Obj*o=mkObj(k); load(o,m); sendAll(o,m.emit,k.name);
  rmObj(o); checkNoLeak("after sending"); }
static Reg r02("C02",c02);

// ---------------------------------------------------------------- damage
struct Hit{ std::string what; };
static Bytes damage(const Bytes&e,std::string&what){ Bytes b=e; int n=1+choose(3); for(int i=0;i<n;i++){ if(b.empty()) break; size_t at=choose(b.size()); switch(choose(11)){
  case 0: { size_t bit=choose(8); b[at]^=1<<bit; what+=" flip@"+std::to_string(at); count("fault.bit_flip"); break; }
  case 1: { size_t l=1+choose(std::min((size_t)40,b.size()-at)); b.erase(b.begin()+at,b.begin()+at+l); what+=" lose "+std::to_string(l)+"@"+std::to_string(at); count("fault.bytes_lost"); break; }
  case 2: { size_t l=1+choose(std::min((size_t)40,b.size()-at)); Bytes s(b.begin()+at,b.begin()+at+l); b.insert(b.begin()+at,s.begin(),s.end()); what+=" dup "+std::to_string(l)+"@"+std::to_string(at); count("fault.bytes_duplicated"); break; }
  case 3: { size_t l=1+choose(std::min((size_t)16,b.size()-at)); size_t to=choose(b.size()-l+1); Bytes s(b.begin()+at,b.begin()+at+l); b.erase(b.begin()+at,b.begin()+at+l); b.insert(b.begin()+std::min(to,b.size()),s.begin(),s.end()); what+=" move "+std::to_string(l)+"@"+std::to_string(at); count("fault.bytes_reordered"); break; }
  case 4: { b.resize(at); what+=" cut@"+std::to_string(at); count("fault.truncated"); break; }
  case 5: { uint8_t v=oneOf({0xfd,0xfe,0xff,0x00,0xfc,0x80}); b[at]=v; what+=" set "+hx(&v,1)+"@"+std::to_string(at); count("fault.length_field"); break; }
  case 6: { Bytes v; switch(choose(5)){ case 0: v={0xfd,0xff,0xff}; break; case 1: v={0xfe,0xff,0xff,0xff,0xff}; break; case 2: v={0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff}; break; case 3: v={0xfd,0x05,0x00}; break; default: v={0xfe,0x00,0x00,0x00,0x80}; } size_t l=std::min(v.size(),b.size()-at); for(size_t j=0;j<l;j++) b[at+j]=v[j]; what+=" hostile length@"+std::to_string(at); count("fault.hostile_length"); break; }
  case 7: { Bytes r=blob(1+choose(12)); b.insert(b.begin()+at,r.begin(),r.end()); what+=" insert@"+std::to_string(at); count("fault.bytes_inserted"); break; }
  case 8: { b[at]=(uint8_t)choose(256); what+=" set@"+std::to_string(at); count("fault.byte_changed"); break; }
  case 9: { size_t l=1+choose(std::min((size_t)64,b.size()-at)); uint8_t v=choose(2)?0xff:0; for(size_t j=0;j<l;j++) b[at+j]=v; what+=" stuck line "+std::to_string(l)+"@"+std::to_string(at); count("fault.stuck_line"); break; }
  default: { uint8_t v=b[at]; b[at]= v+ (choose(2)?1:-1); what+=" +-1@"+std::to_string(at); count("fault.off_by_one"); } } }
  return b; }
static bool readVarStrict(const Bytes&b,size_t&p,u64&v){ if(p>=b.size()) return false; uint8_t c=b[p++]; int n= c<0xfd?0: c==0xfd?2: c==0xfe?4:8; if(!n){ v=c; return true; } if(p+n>b.size()) return false; v=0; for(int i=0;i<n;i++) v|=(u64)b[p+i]<<(8*i); p+=n; return !((n==2&&v<0xfd)||(n==4&&v<0x10000)||(n==8&&v<0x100000000ull)); }
// ---- damage that knows the format: where fields begin, which ones hold lengths
static void marksTx(const Bytes&b,size_t p,std::vector<size_t>&v){ auto mk=[&](size_t x){ if(x<b.size()) v.push_back(x); }; u64 n; mk(p); p+=4; bool sw=p<b.size()&&b[p]==0; if(sw){ mk(p); mk(p+1); p+=2; } mk(p); if(!readVarStrict(b,p,n)) return; u64 ni=n; for(u64 i=0;i<ni&&p<b.size();i++){ mk(p); mk(p+32); p+=36; mk(p); if(!readVarStrict(b,p,n)) return; p+=n; mk(p); p+=4; } mk(p); if(!readVarStrict(b,p,n)) return; for(u64 i=0;i<n&&p<b.size();i++){ mk(p); p+=8; mk(p); u64 l; if(!readVarStrict(b,p,l)) return; p+=l; } if(sw) for(u64 i=0;i<ni&&p<b.size();i++){ mk(p); u64 c; if(!readVarStrict(b,p,c)) return; for(u64 j=0;j<c&&p<b.size();j++){ mk(p); u64 l; if(!readVarStrict(b,p,l)) return; p+=l; } } mk(p); }
static std::vector<size_t> marks(const std::string&kn,const Bytes&b){ std::vector<size_t> v; auto mk=[&](size_t x){ if(x<b.size()) v.push_back(x); }; size_t p=0; u64 n;
  if(kn=="tx"||kn=="segwit_tx") marksTx(b,0,v);
  else if(kn=="psbt"){ for(size_t i=0;i<5;i++) mk(i); p=5; while(p<b.size()){ mk(p); if(!readVarStrict(b,p,n)) break; if(!n) continue; mk(p); mk(p+1); p+=n; mk(p); if(!readVarStrict(b,p,n)) break; mk(p); p+=n; } }
  else if(kn=="electrum"){ for(size_t i=0;i<6;i++) mk(i); marksTx(b,6,v); for(size_t i=6;i+4<b.size();i++) for(int j=0;j<10;j++) if(!memcmp(&b[i],PUBV[j],4)){ for(size_t x: {i-1,i-2,i-5,i,i+1,i+2,i+3,i+4,i+45,i+78,i+79}) mk(x); break; } }
  else if(kn=="hdpub"||kn=="hdpriv"){ for(size_t i: {0,1,2,3,4,5,9,13,45,46}) mk(i); }
  else if(kn=="witness"){ mk(0); if(readVarStrict(b,p,n)) for(u64 i=0;i<n&&p<b.size();i++){ mk(p); u64 l; if(!readVarStrict(b,p,l)) break; p+=l; } }
  else if(kn=="txin"){ mk(0); mk(32); mk(36); mk(b.size()-4); } else if(kn=="txout"){ mk(0); mk(8); mk(9); }
  else if(kn=="signature"){ for(size_t i=0;i<5;i++) mk(i); if(b.size()>4){ size_t q=4+b[3]; mk(q); mk(q+1); mk(q+2); } }
  else { mk(0); mk(1); } if(v.empty()) v.push_back(0); return v; }
static void hitAt(Bytes&b,size_t at,std::string&what){ if(b.empty()) return; if(at>=b.size()) at=b.size()-1; const char*w;
  switch(choose(8)){ case 0: b[at]=(uint8_t)choose(9); w="small"; count("fault.prefix_byte"); break; case 1: b[at]+= choose(2)?1:-1; w="+-1"; count("fault.off_by_one"); break; case 2: b[at]^=1<<choose(8); w="flip"; count("fault.bit_flip"); break;
    case 3: { Bytes f; u64 v=b[at]; int k=choose(3); if(v==0xfd&&at+2<b.size()){ v=b[at+1]|b[at+2]<<8; b.erase(b.begin()+at,b.begin()+at+2); k=1+choose(2); } else if(v>=0xfd){ b[at]=0xfc; w="length form"; break; } f.push_back(0xfd+k); put(f,v,k==0?2:k==1?4:8); b.erase(b.begin()+at); b.insert(b.begin()+at,f.begin(),f.end()); w="length in a longer form"; count("fault.noncanonical_length"); break; }
    case 4: { size_t q=at+choose(8); if(q<b.size()) b[q]^=1<<choose(8); w="flip near"; count("fault.bit_flip"); break; } case 5: { b.erase(b.begin()+at); w="lose 1"; count("fault.bytes_lost"); break; } case 6: { b.insert(b.begin()+at,(uint8_t)choose(4)); w="insert 1"; count("fault.bytes_inserted"); break; } default: { size_t l=1+choose(2); Bytes f=choose(2)? Bytes(l,0xff):Bytes(l,0); for(size_t i=0;i<l&&at+i<b.size();i++) b[at+i]=f[i]; w="extreme"; count("fault.stuck_line"); } }
  what+=std::string(" ")+w+"@field "+std::to_string(at); }
static Bytes damageField(const std::string&kn,const Bytes&e,std::string&what){ Bytes b=e; if((kn=="scalar"||kn=="privkey"||kn=="hdpriv")&&b.size()>=32&&chance(1,3)){ Bytes k; int w=choose(6); switch(w){ case 0: k=Bytes(32,0); break; case 1: k=be(N_); break; case 2: k=Bytes(32,0xff); break; case 3: k=be(N_); k[31]+=1+choose(100); break; case 4: k=be(N_); k[31]-=1+choose(60); break; default: k=be(N_); for(int i=16+choose(16);i<32;i++) k[i]=choose(256); } std::copy(k.begin(),k.end(),b.end()-32); what+=" key around the group order"; count("fault.key_range"); return b; } int n=1+!choose(3); for(int i=0;i<n;i++){ auto v=marks(kn,b); if(v.size()>60){ v={v[choose(v.size())]}; } hitAt(b,v[choose(v.size())],what); } return b; }
static const Bytes&poolPub(size_t i){ static std::vector<Bytes> v; while(v.size()<=i){ Bytes k(32,0); k[30]=(v.size()+1)>>8; k[31]=(v.size()+1)&255; v.push_back(pubOf(k)); } return v[i]; }
// a PSBT whose maps stay well-formed while one entry or outpoint is altered
static Bytes damagePsbt(const Bytes&e,std::string&what){ MPsbt p; if(!parsePsbt(e,p)) return damageField("psbt",e,what); int n=1+!choose(3); for(int i=0;i<n;i++){ std::vector<std::pair<int,size_t>> at; for(size_t j=0;j<p.in.size();j++) if(p.in[j].size()) at.push_back({0,j}); for(size_t j=0;j<p.out.size();j++) if(p.out[j].size()) at.push_back({1,j});
    if(at.empty()||choose(4)==0){ if(p.tx.in.empty()) break; MIn&x=p.tx.in[choose(p.tx.in.size())]; switch(choose(4)){ case 0: x.idx^=1u<<choose(32); what+=" outpoint index bit"; break; case 1: x.idx+=oneOf({1,0xffffffffu,0x100,0x10000,0x1000000}); what+=" outpoint index"; break; case 2: x.hash[choose(32)]^=1<<choose(8); what+=" outpoint hash"; break; default: std::reverse(x.hash.begin(),x.hash.end()); what+=" outpoint hash reversed"; } count("fault.outpoint_altered"); continue; }
    auto a=at[choose(at.size())]; auto&s= a.first? p.out[a.second] : p.in[a.second]; size_t j=choose(s.size()); KV&kv=s[j]; std::string tag=(a.first?" out ":" in ")+std::to_string(a.second)+" entry "+hx(kv.k.data(),std::min(kv.k.size(),(size_t)2))+":";
    what+=tag; switch(chance(1,40)? 7 : choose(7)){ case 7: { bool sg=!a.first&&choose(2); size_t n=oneOf({200,253,254,255,256,257,260}); Bytes one(32,0); one[31]=1; Bytes ds=der(one,blob(32)); ds.push_back(1); for(size_t q=0;q<n;q++){ KV c; c.k={(uint8_t)(sg?2:a.first?2:6)}; app(c.k,poolPub(q)); if(sg) c.v=ds; else { c.v=Bytes(4,9); put(c.v,q,4); } s.push_back(c); } what+=" crowded with "+std::to_string(n)+" entries"; count("fault.crowded_map"); break; }
      case 0: { size_t l= kv.v.size()? 1+choose(std::min(kv.v.size(),(size_t)(choose(2)?3:40))) : 0; kv.v.resize(kv.v.size()-l); what+=" value cut by "+std::to_string(l); count("fault.value_truncated"); break; }
      case 1: if(kv.k.size()>30&&chance(1,2)) kv.v.resize(4*(254+choose(6)),(uint8_t)choose(256)); else app(kv.v,blob(1+choose(4))); what+=" value extended"; count("fault.value_extended"); break;
      case 2: { std::vector<size_t> m; if(!a.first&&kv.k==Bytes{0}) marksTx(kv.v,0,m); else if(!a.first&&kv.k==Bytes{1}) m={0,8,9}; else if(!a.first&&kv.k[0]==2&&kv.v.size()>5){ m={0,1,2,3,4,kv.v.size()-1}; m.push_back(4+kv.v[3]); m.push_back(5+kv.v[3]); } else m={0,kv.v.size()?choose(kv.v.size()):0}; if(m.empty()) m.push_back(0); hitAt(kv.v,m[choose(m.size())],what); break; }
      case 3: if(kv.k.size()>1){ hitAt(kv.k,choose(3)?1:choose(kv.k.size()),what); if(kv.k.empty()) kv.k.push_back(0); } else kv.k[0]=choose(9); what+=" key"; count("fault.key_altered"); break;
      case 4: { if(choose(2)) kv.k.push_back(choose(256)); else if(kv.k.size()>1) kv.k.pop_back(); what+=" key length"; count("fault.key_length"); break; }
      case 5: { KV c=kv; if(choose(2)&&c.v.size()) c.v[choose(c.v.size())]^=1; s.push_back(c); what+=" repeated"; count("fault.entry_repeated"); break; }
      default: { auto b=at[choose(at.size())]; auto&s2= b.first? p.out[b.second] : p.in[b.second]; KV c=kv; s.erase(s.begin()+j); s2.push_back(c); what+=" moved to another section"; count("fault.entry_moved"); } } }
  return ser(p); }
// Feed arbitrary bytes in chunks until done / failed / exhausted. Returns bytes consumed.
struct Feed{ size_t consumed=0; parse_status st=PARSING_INCOMPLETE; bool oom=false; };
static Feed feed(Obj*o,const Bytes&b,bool exceptionsOk){ Feed f; SimIn in; int mode=choose(4); size_t sent=0; size_t lim= b.size()>3000&&(mode==1||mode==2)? 0:mode; mode=lim;
  bool first=true;
  while(true){ size_t rem=b.size()-sent; if(!rem&&!first) break; first=false; size_t c=std::min(rem,chunkSize(mode,rem)); in.push(Bytes(b.begin()+sent,b.begin()+sent+c)); sent+=c; size_t before=in.pos,ret=0; budget(600000000ull);
    try{ Dev d; ret=in.parse(o->s()); }catch(std::bad_alloc&){ if(!exceptionsOk) { /* capacity exceeded on garbage */ } f.oom=true; f.consumed=in.pos; f.st=o->s()->getStatus(); L(" allocation failure surfaced after %zu bytes, status %s",in.pos,stName(f.st)); return f; }
    size_t cons=in.pos-before; f.st=o->s()->getStatus(); f.consumed=in.pos; L(" +%zu -> ret %zu, %s",c,ret,stName(f.st));
    CHECK(in.overreads==0,"read-without-data","read from the link with nothing available");
    CHECK(ret==cons || (f.st==PARSING_FAILED),"byte-count","call reported %zu bytes but took %zu",ret,cons);
    if(f.st==PARSING_DONE||f.st==PARSING_FAILED) break;
    CHECK(cons==c,"stall","incomplete but consumed only %zu of %zu available bytes",cons,c); }
  return f; }
static void stickyFailure(Obj*o){ SimIn in; in.push(Bytes(40,0x01)); size_t r; budget(100000000ull); { Dev d; r=in.parse(o->s()); } CHECK(o->s()->getStatus()==PARSING_FAILED && r==0 && in.pos==0,"failure-not-sticky","after failing, the next data was taken: ret %zu consumed %zu status %s",r,in.pos,stName(o->s()->getStatus())); }

// ---------------------------------------------------------------- C03
static void edit(const std::string&kn,Obj*o){ Bytes e=blob(1+choose(30)); Dev d; // the application works on what it received before the next message comes
  if(kn=="script") ((Script*)o->s())->push(e.data(),e.size()); else if(kn=="witness") ((Witness*)o->s())->push(e.data(),e.size());
  else if(kn=="txin"){ TxIn*t=(TxIn*)o->s(); t->witness.push(e.data(),e.size()); t->scriptSig.push((uint8_t)1); t->sequence^=5; } else if(kn=="txout"){ TxOut*t=(TxOut*)o->s(); t->amount+=7; t->scriptPubkey.push((uint8_t)0x51); }
  else if(kn=="tx"||kn=="segwit_tx"){ Tx*t=(Tx*)o->s(); TxOut x; x.amount=5; x.scriptPubkey.push((uint8_t)0x51); t->addOutput(x); if(t->inputsNumber) t->txIns[0].witness.push(e.data(),e.size()); TxIn y; y.witness.push(e.data(),e.size()); t->addInput(y); t->locktime++; }
  else if(kn=="psbt"){ PSBT*p=(PSBT*)o->s(); if(p->tx.inputsNumber){ p->txInsMeta[0].redeemScript.push((uint8_t)0x51); p->txInsMeta[0].txOut.amount+=3; p->tx.txIns[0].witness.push(e.data(),e.size()); } if(p->tx.outputsNumber) p->txOutsMeta[0].witnessScript.push((uint8_t)0x52); }
  else if(kn=="electrum"){ ElectrumTx*p=(ElectrumTx*)o->s(); if(p->tx.inputsNumber){ p->txInsMeta[0].amount+=3; p->tx.txIns[0].scriptSig.push((uint8_t)1); p->tx.txIns[0].witness.push(e.data(),e.size()); } }
  else return; count("sched.edited_between"); }
static void c03(){ const Kind&k=kinds[pickKind()]; GenOpt g; g.big=!chance(2,3); L("kind %s",k.name); Obj*o=mkObj(k); int n=1+choose(4); bool needReset=false; if(chance(1,8)&&strcmp(k.name,"psbt")&&strcmp(k.name,"electrum")) edit(k.name,o);
  for(int i=0;i<n;i++){ Msg m=k.gen(g); int what=choose(5); std::string d;
    if(what==0){ L("transfer %d: complete",i); if(needReset){ Dev dv; o->s()->reset(); } load(o,m); needReset=false; std::string got=dumpObj(o); CHECK(got==m.dump,"content","message %d after %d transfers: %s",i,i,diff(m.dump,got).c_str()); count("sched.replaced_complete"); if(chance(1,3)) edit(k.name,o); }
    else{ Bytes b=m.enc; if(what<=2){ size_t at=choose(b.size()+1); b.resize(at); d=" cut@"+std::to_string(at); count("fault.transfer_cut"); } else b=damage(b,d); L("transfer %d: damaged:%s",i,d.c_str()); nontrivial();
      if(needReset){ Dev dv; o->s()->reset(); } Feed f=feed(o,b,false); needReset=true; if(f.st==PARSING_DONE&&!f.oom) needReset=false;
      if(f.st==PARSING_FAILED&&!f.oom) { count("probe.transfer_failed"); if(chance(1,3)) stickyFailure(o); } if(chance(1,8)){ Dev dv; o->s()->reset(); needReset=false; }
      if(chance(1,6)){ // destroyed in the middle; a new object takes over
        rmObj(o); checkNoLeak("object destroyed in mid-transfer"); o=mkObj(k); needReset=false; count("fault.destroyed_mid_transfer"); } } }
  Msg m=k.gen(g); { Dev d; if(needReset) o->s()->reset(); } L("final good transfer");
  if(chance(1,2)) receiveGood(o,m,"message after reset",false); else { load(o,m); std::string got=dumpObj(o); CHECK(got==m.dump,"content","after %d earlier transfers: %s",n,diff(m.dump,got).c_str()); }
  // the object must also behave like a fresh one when sending
  Bytes out; { Dev d; size_t len=o->s()->length(); uint8_t*p=new uint8_t[len+8]; size_t r=o->s()->serialize(p,len+8,(size_t)0,RAW); { Host h; out=B(p,r<=len+8?r:0); } delete[] p; } CHECK(out==m.emit,"content","re-emitted bytes differ after earlier transfers (%zu vs %zu)",out.size(),m.emit.size());
  rmObj(o); checkNoLeak("object destroyed"); }
static Reg r03("C03",c03);

// ---------------------------------------------------------------- C04
static Bytes reser(Obj*o){ Bytes out; size_t len=o->s()->length(); out.resize(len+8); size_t r=o->s()->serialize(out.data(),out.size(),(size_t)0,RAW); out.resize(std::min(r,out.size())); return out; }
static bool skipKV(const Bytes&b,size_t&p,std::vector<KV>&s){ for(;;){ u64 kl; if(!readVarStrict(b,p,kl)) return false; if(kl==0) return true; if(p+kl>b.size()) return false; Bytes k(b.begin()+p,b.begin()+p+kl); p+=kl; u64 vl; if(!readVarStrict(b,p,vl)||p+vl>b.size()) return false; s.push_back({k,Bytes(b.begin()+p,b.begin()+p+vl)}); p+=vl; } }
static void judgeDone(const Kind&k,Obj*o,const Bytes&c){ // c: the consumed bytes
  std::string kn=k.name; Bytes out=reser(o);
  if(kn=="psbt"){ PSBT*p=(PSBT*)o->s(); size_t q=5; CHECK(c.size()>=5 && !memcmp(c.data(),"psbt\xff",5),"false-done","done without the PSBT magic"); std::vector<KV> g; CHECK(skipKV(c,q,g)&&g.size(),"false-done","global section malformed");
    CHECK(g[0].k==Bytes{0},"false-done","first global key is not the unsigned transaction"); MTx t; size_t tp=0; bool ok=parseTx(g[0].v,tp,t); Bytes lt; { size_t len=p->tx.length(); lt.resize(len+8); size_t r=p->tx.serialize(lt.data(),lt.size(),(size_t)0,RAW); lt.resize(std::min(r,lt.size())); }
    if(ok&&tp==g[0].v.size()){ CHECK(dumpL(p->tx)==dumpM(t),"content","accepted PSBT holds another transaction: %s",diff(dumpM(t),dumpL(p->tx)).c_str()); }
    else { bool noIn=p->tx.inputsNumber==0; bool emptyWit=!p->tx.isSegwit()&&g[0].v.size()>5&&g[0].v[4]==0; CHECK(noIn||emptyWit,"false-done","PSBT accepted whose transaction is not a complete encoding: %s",cut(hx(g[0].v)).c_str()); return; }
    std::vector<std::vector<KV>> sec; for(size_t i=0;i<t.in.size()+t.out.size();i++){ std::vector<KV> s; CHECK(skipKV(c,q,s),"false-done","section %zu malformed",i); sec.push_back(s); } CHECK(q==c.size(),"false-done","done after %zu bytes, the PSBT ends at %zu",c.size(),q);
    for(size_t i=0;i<t.in.size();i++) for(auto&e:sec[i]){ if(e.k[0]==0&&e.k.size()==1){ MTx pv; size_t pp=0; if(parseTx(e.v,pp,pv)){ count("probe.hostile_prevtx_checked"); CHECK(pp==e.v.size(),"false-done","input %zu: a previous transaction followed by %zu stray bytes was accepted",i,e.v.size()-pp); CHECK(txhash(pv)==t.in[i].hash && t.in[i].idx<pv.out.size(),"wrong-prevtx","input %zu: previous transaction does not match the outpoint, yet the PSBT was accepted",i); } } }
    // the last utxo entry given for an input must be what is held
    for(size_t i=0;i<t.in.size();i++){ Bytes want; bool have=false; u64 amt=0; for(auto&e:sec[i]){ if(e.k.size()==1&&e.k[0]==0){ MTx pv; size_t pp=0; if(parseTx(e.v,pp,pv)&&t.in[i].idx<pv.out.size()){ amt=pv.out[t.in[i].idx].amt; want=pv.out[t.in[i].idx].spk; have=true; } else have=false; } if(e.k.size()==1&&e.k[0]==1){ size_t pp=8; u64 sl; if(e.v.size()>8&&readVarStrict(e.v,pp,sl)&&pp+sl<=e.v.size()){ amt=0; for(int j=0;j<8;j++) amt|=(u64)e.v[j]<<(8*j); want=Bytes(e.v.begin()+pp,e.v.begin()+pp+sl); have=true; CHECK(pp+sl==e.v.size(),"false-done","input %zu: a witness utxo followed by %zu stray bytes was accepted",i,e.v.size()-pp-(size_t)sl); } else fail("false-done","input %zu: truncated witness utxo accepted",i); } }
      if(have){ auto&m=p->txInsMeta[i]; CHECK(m.txOut.amount==amt&&B(m.txOut.scriptPubkey.scriptArray,m.txOut.scriptPubkey.scriptLen)==want,"content","input %zu: utxo content differs from the bytes received",i); } }
    // everything the accepted maps say about scripts, keys and signatures is what the object holds and gives back (entries under one key given twice: not decided here)
    MPsbt po; CHECK(parsePsbt(out,po)&&po.in.size()==t.in.size(),"content","what was accepted is not given back as a PSBT: %s",cut(hx(out)).c_str());
    for(size_t i=0;i<sec.size();i++){ bool isIn=i<t.in.size(); std::set<Bytes> ks; bool dup=false; for(auto&e:sec[i]) if(!ks.insert(e.k).second) dup=true; if(dup) continue; Bytes rs,wsx; std::string der,want; std::vector<KV> sig; for(auto&e:sec[i]){ int ty=e.k[0]; if(isIn? (ty==0||ty==1||ty==4||ty==5) : ty<=1) CHECK(e.k.size()==1,"false-done","section %zu: a key of type %d with %zu extra bytes was accepted",i,ty,e.k.size()-1); if(e.k.size()==1&&ty==(isIn?4:0)) rs=e.v; if(e.k.size()==1&&ty==(isIn?5:1)) wsx=e.v; if(ty==(isIn?6:2)){ Point P; Bytes pk(e.k.begin()+1,e.k.end()); CHECK(parseSec(pk,P),"false-done","section %zu: derivation accepted for %s, which is not a public key",i,hx(pk).c_str()); CHECK(e.v.size()>=4&&e.v.size()%4==0,"false-done","section %zu: derivation of %zu bytes accepted",i,e.v.size()); want+=hx(pk)+" "+hx(e.v)+"\n"; } if(isIn&&ty==2){ Point P; Bytes pk(e.k.begin()+1,e.k.end()),r,ss; CHECK(parseSec(pk,P),"false-done","section %zu: signature accepted under %s, which is not a public key",i,hx(pk).c_str()); CHECK(e.v.size()>1&&under(Bytes(e.v.begin(),e.v.end()-1),r,ss),"false-done","input %zu: accepted a signature that is not strict DER and a sighash byte: %s",i,hx(e.v).c_str()); sig.push_back(e); } }
      auto dl=[&](PSBTDerivation*d,int n){ for(int j=0;j<n;j++){ uint8_t b[65]; size_t l=d[j].pubkey.sec(b,65); der+=hx(b,l)+" "+hx(d[j].fingerprint,4); Bytes pb; for(int q=0;q<d[j].derivationLen;q++) put(pb,d[j].derivation[q],4); der+=hx(pb)+"\n"; } }; Script*R,*W; if(isIn){ auto&m=p->txInsMeta[i]; dl(m.derivations,m.derivationsLen); R=&m.redeemScript; W=&m.witnessScript; } else { auto&m=p->txOutsMeta[i-t.in.size()]; dl(m.derivations,m.derivationsLen); R=&m.redeemScript; W=&m.witnessScript; }
      CHECK(der==want,"content","section %zu: derivations held differ from those received: %s",i,diff(want,der).c_str()); CHECK(B(R->scriptArray,R->scriptLen)==rs&&B(W->scriptArray,W->scriptLen)==wsx,"content","section %zu: scripts held differ from those received",i);
      if(isIn){ auto&g2=po.in[i]; bool same=g2.size()==sig.size(); for(auto&e:sig){ bool f=false; for(auto&x:g2) if(x.k==e.k&&x.v==e.v) f=true; if(!f) same=false; } CHECK(same,"content","input %zu: signatures given back differ from those received",i); } }
    return; }
  if(kn=="electrum"){ ElectrumTx*e=(ElectrumTx*)o->s(); CHECK(c.size()>=6&&!memcmp(c.data(),"EPTF\xff\0",6),"false-done","done without the Electrum magic"); // rebuild the wire form from the content and compare all but don't-care header bytes
    Tx&t=e->tx; bool sw= c.size()>10&&c[10]==0; Bytes w; auto app8=[&](const Streamable&s){ Bytes b(s.length()+4); size_t r=s.serialize(b.data(),b.size(),(size_t)0,RAW); b.resize(r); app(w,b); }; Bytes mask; w=Bytes{0x45,0x50,0x54,0x46,0xff,0}; put(w,t.version,4); if(sw){ w.push_back(0); w.push_back(1); } w.push_back(t.inputsNumber); std::vector<std::pair<size_t,size_t>> skip;
    for(size_t i=0;i<t.inputsNumber;i++){ if(sw) app8(t.txIns[i]); else { app(w,B(t.txIns[i].hash,32)); put(w,t.txIns[i].outputIndex,4); w.push_back(87); skip.push_back({w.size(),5}); app(w,Bytes(5,0)); app8(e->txInsMeta[i].hd); put(w,e->txInsMeta[i].derivation[0],2); put(w,e->txInsMeta[i].derivation[1],2); put(w,t.txIns[i].sequence,4); } }
    w.push_back(t.outputsNumber); for(size_t i=0;i<t.outputsNumber;i++) app8(t.txOuts[i]);
    if(sw) for(size_t i=0;i<t.inputsNumber;i++){ skip.push_back({w.size(),5}); app(w,Bytes(5,0)); put(w,e->txInsMeta[i].amount,8); skip.push_back({w.size(),7}); app(w,Bytes(7,0)); app8(e->txInsMeta[i].hd); put(w,e->txInsMeta[i].derivation[0],2); put(w,e->txInsMeta[i].derivation[1],2); }
    put(w,t.locktime,4); CHECK(w.size()==c.size(),"false-done","done after %zu bytes but the content encodes to %zu",c.size(),w.size()); for(size_t i=0;i<w.size();i++){ bool s=false; for(auto&x:skip) if(i>=x.first&&i<x.first+x.second) s=true; CHECK(s||w[i]==c[i],"content","content differs from the received bytes at %zu",i); } return; }
  if(kn=="tx"||kn=="segwit_tx"){ Tx*t=(Tx*)o->s(); if(t->inputsNumber==0) { return; } // not a transaction a peer can send
    bool sw=c.size()>4&&c[4]==0; if(sw&&!t->isSegwit()){ // segwit form in which every witness is empty: re-encoded without it
      Bytes w(c.begin(),c.begin()+4); app(w,Bytes(c.begin()+6,c.end()-4-t->inputsNumber)); app(w,Bytes(c.end()-4,c.end())); CHECK(out==w,"content","re-encoding differs"); return; }
    CHECK(out==c,"false-done","done, but the content encodes to other bytes than were consumed (%zu vs %zu)",out.size(),c.size()); MTx m; size_t pp=0; CHECK(parseTx(c,pp,m)&&pp==c.size(),"false-done","reference decoder rejects what was accepted"); CHECK(dumpL(*t)==dumpM(m),"content","%s",diff(dumpM(m),dumpL(*t)).c_str()); return; }
  if(kn=="scalar"||kn=="privkey"||kn=="hdpriv"){ size_t off= kn=="hdpriv"?46:0; CHECK(c.size()==off+32,"false-done","done after %zu bytes",c.size()); Bytes kk(c.begin()+off,c.end()); Bytes want(c.begin(),c.begin()+off); Bytes red=be(modN(u256(kk.data()))); if(kn!="scalar") CHECK(red==kk,"false-done","accepted a key that is not below the group order: %s",hx(kk).c_str()); app(want,red); CHECK(out==want,"content","re-encoding differs: %s vs %s",hx(out).c_str(),hx(want).c_str()); CHECK(!isZero(u256(red.data())),"false-done","accepted the zero key"); if(kn!="scalar"){ PrivateKey*p=(PrivateKey*)o->s(); if(!isZero(u256(red.data()))){ Bytes w=pubOf(red,false); PublicKey pk=p->publicKey(); CHECK(B(pk.point,64)==Bytes(w.begin()+1,w.end()),"content","public key does not belong to the private key received"); } } return; }
  CHECK(out==c,"false-done","done, but the content encodes to other bytes than were consumed: %s vs %s",cut(hx(out),120).c_str(),cut(hx(c),120).c_str());
  if(kn=="point"||kn=="pubkey"||kn=="hdpub"){ Bytes s= kn=="hdpub"? Bytes(c.begin()+45,c.end()):c; Point p; CHECK(parseSec(s,p),"false-done","accepted a key that is not a curve point"); CHECK(((ECPoint*)(PublicKey*)o->s())->isValid(),"false-done","done but not valid"); }
  if(kn=="signature"){ Bytes r,s; CHECK(under(c,r,s),"false-done","accepted a signature that is not strict DER: %s",hx(c).c_str()); }
}
static void c04(){ const Kind&k=kinds[pickKind()]; GenOpt g; g.big=!chance(3,4); L("kind %s",k.name); Msg m=k.gen(g); Obj*o=mkObj(k); std::string what;
  if(chance(1,8)){ // hex with damaged characters
    std::string h=hx(m.enc); size_t nb=1+choose(3); size_t firstBad=h.size(); for(size_t i=0;i<nb;i++){ size_t at=choose(h.size()); char c=(char)oneOf({'g',' ','\n','x','-','G','/',':','@','`',0x7f,0xe9}); h[at]=c; firstBad=std::min(firstBad,at); what+=" bad char@"+std::to_string(at); } count("fault.bad_hex_char",nb); nontrivial(); L("hex:%s",what.c_str());
    size_t pos=0; int mode=choose(3); std::string pend; parse_status st=PARSING_INCOMPLETE; size_t consumed=0; while(pos<h.size()){ size_t c= mode==0? h.size()-pos : std::min(h.size()-pos,(size_t)2*(1+choose(40))); pend+=h.substr(pos,c); pos+=c; char*p=(char*)malloc(pend.size()); memcpy(p,pend.data(),pend.size()); size_t ret; budget(400000000ull); { Dev d; ret=o->s()->parse((const char*)p,pend.size(),HEX_ENCODING); } free(p); st=o->s()->getStatus(); consumed+=ret; L(" ret %zu %s",ret,stName(st)); if(st!=PARSING_INCOMPLETE) break; pend.erase(0,std::min(pend.size(),2*ret)); }
    CHECK(consumed<=firstBad/2 || st==PARSING_FAILED,"bad-hex","%zu bytes consumed although character %zu is not hex (status %s)",consumed,firstBad,stName(st)); CHECK(st!=PARSING_DONE || consumed<=firstBad/2,"bad-hex","done on text that is not hex"); CHECK(st!=PARSING_DONE,"bad-hex","done although a character inside the message is not hex");
    rmObj(o); checkNoLeak("object destroyed"); return; }
  Bytes b; if(chance(1,20)){ b=blob(choose(200)); what=" random bytes"; count("fault.random_bytes"); } else if(chance(1,20)){ b=m.enc; what=" intact"; } else { int how=choose(5); std::string kn=k.name; b= how<=1? damage(m.enc,what) : how==2||kn!="psbt"? damageField(kn,m.enc,what) : damagePsbt(m.enc,what); } app(b,blob(choose(3)?0:choose(60))); L("%zu bytes, damaged:%s",b.size(),what.c_str()); nontrivial();
  Feed f=feed(o,b,false);
  if(f.oom){ CHECK(g_allocFailures>0,"spurious-bad-alloc","bad_alloc without an allocation failure"); count("probe.capacity_exceeded"); }
  else if(f.st==PARSING_DONE){ count("probe.damaged_but_done"); Bytes c(b.begin(),b.begin()+f.consumed); judgeDone(k,o,c); }
  else if(f.st==PARSING_FAILED){ count("probe.rejected"); stickyFailure(o); }
  else count("probe.left_incomplete");
  // the object can still be used for output or reset without memory errors
  if(!f.oom&&f.st!=PARSING_INCOMPLETE&&chance(1,4)){ Dev d; o->s()->reset(); }
  rmObj(o); checkNoLeak("object destroyed"); }
static Reg r04("C04",c04);

// ---------------------------------------------------------------- C05
static void c05(){ static const uint8_t ks[]={0,1,2,3,4,5,5,6,6,6,6,7,7}; const Kind&k=kinds[ks[choose(sizeof ks)]]; count((std::string("kind.")+k.name).c_str()); GenOpt g; g.big=chance(1,3); L("kind %s",k.name); Msg m=k.gen(g);
  // a fault-free dry run tells how many allocations the transfer needs
  u64 need; { Obj*o=mkObj(k); u64 a=g_allocs; load(o,m); need=g_allocs-a; rmObj(o); checkNoLeak("dry run"); }
  Obj*o=mkObj(k); int prior=choose(3); if(prior==1){ Msg p=k.gen(g); load(o,p); }
  g_heap=HeapPlan(); g_heap.on=true; int mode=choose(4); g_heap.failAt=g_allocs+1+choose((u32)need+2); g_heap.failLen= mode==0?1: mode==1? 1+choose(3): 1000000; if(mode==3){ g_heap.failAt=0; g_heap.failAbove=oneOf({1,8,16,30,60,100,200,500,2000}); } L("allocation plan: fail #%llu.. x%llu, above %zu (need %llu)",(unsigned long long)(g_heap.failAt?g_heap.failAt-g_allocs:0),(unsigned long long)g_heap.failLen,g_heap.failAbove,(unsigned long long)need);
  u64 f0=g_allocFailures; Feed f=feed(o,m.enc,true); bool hit=g_allocFailures>f0; g_heap=HeapPlan();
  if(hit) nontrivial();
  if(f.oom) CHECK(hit,"spurious-bad-alloc","bad_alloc without an allocation failure");
  if(!hit){ CHECK(f.st==PARSING_DONE,"spurious-failure","no allocation failed, yet status is %s",stName(f.st)); }
  if(!f.oom&&f.st==PARSING_DONE){ CHECK(f.consumed==m.enc.size(),"false-done","done after %zu of %zu bytes",f.consumed,m.enc.size()); std::string got=dumpObj(o); CHECK(got==m.dump,"content-after-oom","done after an allocation failure, but content is wrong: %s",diff(m.dump,got).c_str()); if(hit) count("probe.survived_oom"); }
  else { CHECK(f.oom||f.st==PARSING_FAILED,"oom-unreported","allocation failed, all data delivered, status still %s",stName(f.st)); count(f.oom?"probe.oom_exception":"probe.oom_failed"); }
  if(chance(1,4)){ rmObj(o); checkNoLeak("destroyed after an allocation failure"); o=mkObj(k); }
  else if(!( !f.oom&&f.st==PARSING_DONE)){ Dev d; o->s()->reset(); }
  Msg m2= chance(1,2)? m : k.gen(g); L("retry"); load(o,m2); std::string got=dumpObj(o); CHECK(got==m2.dump,"content","retry after an allocation failure: %s",diff(m2.dump,got).c_str()); rmObj(o); checkNoLeak("after retry"); }
static Reg r05("C05",c05);
}
