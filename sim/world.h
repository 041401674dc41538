// The simulated world around the library: links (input/output streams), message kinds, generators, dumps.
#pragma once
#include "core.h"
#include "Bitcoin.h"
#include "PSBT.h"
#include "Electrum.h"
#include "Hash.h"
#include <memory>
#undef String
namespace sim {
using ref::MTx; using ref::MIn; using ref::MOut;
// ---------------------------------------------------------------- links
struct SimIn: public ParseStream{ // receiving side of a link: what has arrived and not been read
  Bytes q; size_t pos=0; int last=-1; size_t reads=0, polls=0, overreads=0;
  struct Late{ size_t atPoll; Bytes b; }; std::vector<Late> late; // bytes that arrive while the device is inside a call
  size_t available() override; int read() override; size_t read(uint8_t*a,size_t n) override; int getLast() override{ return last; }
  void push(const Bytes&b){ q.insert(q.end(),b.begin(),b.end()); }
  void poll();
};
struct SimOut: public SerializeStream{ // sending side of a link: a bounded amount of room
  Bytes got; size_t room=0, polls=0, refused=0; struct Late{ size_t atPoll; size_t more; }; std::vector<Late> late;
  size_t available() override; size_t write(uint8_t b) override; size_t write(const uint8_t*a,size_t n) override;
};
// ---------------------------------------------------------------- random number generator
struct SimRng{ int mode=0; u64 st=1,n=0; u32 a=0; u32 from=0,len=0; std::vector<u32> drawn; bool keep=false; u32 next(); };
extern SimRng g_rng;
void rngPlan(bool faulty);               // choose a behaviour for the next operation
// ---------------------------------------------------------------- models
struct MDer{ Bytes pub,fp; std::vector<u32> path; };
struct MSig{ Bytes pub,r,s; };
struct MPIn{ bool utxo=false; u64 amt=0; Bytes spk; std::vector<MDer> der; Bytes redeem,wscript; std::vector<MSig> sig; };
struct MPOut{ std::vector<MDer> der; Bytes redeem,wscript; };
struct PModel{ MTx tx; std::vector<MPIn> in; std::vector<MPOut> out; };
struct MEIn{ Bytes xpub78; uint16_t d[2]; u64 amt; };
struct EModel{ MTx tx; bool segwit; std::vector<MEIn> in; };
std::string dumpM(const MTx&,bool wit=true); std::string dumpM(const PModel&); std::string dumpM(const EModel&);
std::string dumpL(const Tx&); std::string dumpL(const PSBT&); std::string dumpL(const ElectrumTx&);
Bytes psbtOut(const PModel&);            // what the library must emit for this PSBT
Bytes electrumEnc(const EModel&);
Bytes key32();                           // valid private key
Bytes pubOf(const Bytes&key,bool compressed=true);
struct GenOpt{ bool big=true; int maxIn=3,maxOut=3; };
Bytes genScript(const GenOpt&); MIn genIn(const GenOpt&); MOut genOut(const GenOpt&); std::vector<Bytes> genWit(const GenOpt&);
MTx genTx(const GenOpt&,int segwit /*0 no 1 yes 2 either*/);
struct PsbtMsg{ PModel m; Bytes enc; }; PsbtMsg genPsbt(const GenOpt&); EModel genElectrum(const GenOpt&);
Bytes encScript(const Bytes&);

// ---------------------------------------------------------------- kinds of streamable messages
struct Msg{ Bytes enc; std::string dump; Bytes emit; }; // wire form received; expected content; wire form emitted (usually == enc)
struct Obj{ virtual ~Obj(){} virtual Streamable*s()=0; virtual std::string dump()=0; virtual Obj*clone(){ return nullptr; } };
struct Kind{ const char*name; Obj*(*make)(); Msg(*gen)(const GenOpt&); };
extern const Kind kinds[]; extern const int nkinds;
int pickKind();
std::string cut(const std::string&s,size_t n=300); std::string diff(const std::string&want,const std::string&got);
size_t chunkSize(int mode,size_t rem);
// deliver a well-formed message over a live link in scheduled pieces / collect the whole output in scheduled windows
void deliver(Streamable*s,const Bytes&enc); Bytes collect(const Streamable*s);
Bytes pathBytes(const std::vector<u32>&);
extern const uint8_t PUBV[10][4],PRVV[10][4];
ref::HD genHD();
const char*stName(parse_status s);
// a copy made while memory runs out is complete, or empty and marked as failed
void oomOn(u64 need); bool oomOff(); inline const Tx&txIn_(const Tx&t){ return t; } inline const Tx&txIn_(const PSBT&p){ return p.tx; } inline const Tx&txIn_(const ElectrumTx&e){ return e.tx; }
template<class T> void oomCopy(T&src,const char*nm){ std::string want=dumpL(src); int how=choose(3); T*c=nullptr; u64 need; bool thrown=false; { Dev d; if(how){ c=new T; if(how==2) *c=src; } T x; u64 a=g_allocs; x=src; need=g_allocs-a; } L("copy of the %s%s",nm,how==0?" (constructor)": how==1?" (assignment)":" (over a copy)"); count("kind.oom_copy"); oomOn(need); try{ Dev d; if(how) *c=src; else c=new T(src); }catch(std::bad_alloc&){ thrown=true; count("probe.bad_alloc"); } bool hit=oomOff(); if(!hit) CHECK(!thrown,"partial-copy","bad_alloc without an allocation failure"); CHECK(dumpL(src)==want,"partial-copy","the source of the copy was changed");
  if(!thrown){ std::string got=dumpL(*c); bool empty=txIn_(*c).inputsNumber==0&&txIn_(*c).outputsNumber==0&&c->getStatus()==PARSING_FAILED; CHECK(got==want||(hit&&empty),"partial-copy","a copy of the %s made without memory is neither complete nor empty and failed",nm); if(hit) count(got==want?"probe.survived_oom":"probe.not_copied"); } { Dev d; if(!c) c=new T; *c=src; } CHECK(dumpL(*c)==want,"partial-copy","the copy made once memory is back differs"); { Dev d; delete c; } }
}
