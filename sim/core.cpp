#include "core.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <signal.h>
#include <time.h>
#include <new>
#include <map>
#include <set>
#include <unordered_set>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/personality.h>
#include <sys/stat.h>
#include <fcntl.h>
#ifndef SIM_FILL
#define SIM_FILL 0xA5
#endif
extern "C" {
void*__real_malloc(size_t); void*__real_calloc(size_t,size_t); void*__real_realloc(void*,size_t); void __real_free(void*);
}
namespace sim {
bool g_variantZero = SIM_FILL==0;
static const u32 MAXC=1u<<17; static const u32 LOGCAP=1u<<17; static const int MAXCNT=96; static const u32 MAXEDGE=1u<<15;
struct Shm{
  u32 done; u32 verdict; // 0 ok 1 violation 2 harness
  char cls[160]; char detail[1800];
  u32 nch; u64 loghash; u64 nlog; u32 loglen; u64 steps,accSteps; u64 rs; u32 nontriv; u32 ncnt;
  struct{char name[40]; u64 v;} cnt[MAXCNT];
  u32 ch[MAXC]; char log[LOGCAP]; uint8_t edge[MAXEDGE];
};
static Shm*S; static bool keepText=false;
static u64 nextRnd(){ u64 z=(S->rs+=0x9e3779b97f4a7c15ull); z=(z^(z>>30))*0xbf58476d1ce4e5b9ull; z=(z^(z>>27))*0x94d049bb133111ebull; return z^(z>>31); }
static const std::vector<u32>*rep=nullptr;
u32 choose(u32 n){ if(n<=1) return 0; u32 v; u32 i=S->nch; if(i>=MAXC) return 0;
  if(rep) v= i<rep->size()? (*rep)[i]%n : 0; else v=(u32)(((nextRnd()>>32)*(u64)n)>>32);
  S->ch[i]=v; S->nch=i+1; return v; }
Bytes blob(size_t n){ Bytes b(n); if(!n) return b; u64 s=choose(1u<<30); if(s==0){ for(size_t i=0;i<n;i++) b[i]=(uint8_t)(i+1); return b; }
  if(s<8){ for(size_t i=0;i<n;i++) b[i]= s<3?0: s<6?0xff:0x80; b[n-1]|=1; return b; } // extremes
  u64 z=s*0x2545F4914F6CDD1Dull; for(size_t i=0;i<n;i++){ z^=z<<13; z^=z>>7; z^=z<<17; b[i]=(uint8_t)(z>>24); } return b; }
u64 word64(){ switch(choose(8)){ case 0: return choose(1000); case 1: return 0; case 2: return ~0ull; case 3: return 0x80000000ull; case 4: return 0xffffffffull; case 5: return 2100000000000000ull; default:{ u64 a=choose(1u<<30),b=choose(1u<<30); return a*0x9e3779b97f4a7c15ull^b; } } }
u32 word32(){ switch(choose(8)){ case 0: return choose(1000); case 1: return 0; case 2: return 0xffffffffu; case 3: return 0x80000000u; case 4: return 0x7fffffffu; case 5: return 0x00ff80fe; default: return (u32)(choose(1u<<30)*2654435761u); } }
size_t oneOf(std::initializer_list<size_t> l){ return *(l.begin()+choose(l.size())); }

static void fold(const char*s,size_t n){ u64 h=S->loghash; for(size_t i=0;i<n;i++){ h^=(uint8_t)s[i]; h*=1099511628211ull; } S->loghash=h; }
void L(const char*f,...){ Host h; char b[3000]; va_list a; va_start(a,f); int n=vsnprintf(b,sizeof b-1,f,a); va_end(a); if(n>(int)sizeof b-2) n=sizeof b-2; b[n++]='\n'; fold(b,n); S->nlog++;
  if(keepText && S->loglen+n<LOGCAP){ memcpy(S->log+S->loglen,b,n); S->loglen+=n; } }
void count(const char*name,u64 n){ for(u32 i=0;i<S->ncnt;i++) if(!strncmp(S->cnt[i].name,name,39)){ S->cnt[i].v+=n; return; } if(S->ncnt<(u32)MAXCNT){ strncpy(S->cnt[S->ncnt].name,name,39); S->cnt[S->ncnt++].v=n; } }
void nontrivial(){ S->nontriv=1; }
u64 g_steps=0; static u64 g_hostSteps=0; static u64 g_limit=~0ull; u64 g_step_hook_at=~0ull; void(*g_step_hook)()=nullptr;
static u64 g_next=~0ull; // next step needing attention
static void finish(){ S->steps=S->accSteps+g_steps; S->done=1; _exit(0); }
void fail(const char*cls,const char*f,...){ snprintf(S->cls,sizeof S->cls,"%s",cls); va_list a; va_start(a,f); vsnprintf(S->detail,sizeof S->detail,f,a); va_end(a); { Host h; L("VIOLATED %s: %s",S->cls,S->detail); } S->verdict=1; finish(); __builtin_unreachable(); }
void harness(const char*f,...){ va_list a; va_start(a,f); vsnprintf(S->detail,sizeof S->detail,f,a); va_end(a); snprintf(S->cls,sizeof S->cls,"harness"); S->verdict=2; finish(); __builtin_unreachable(); }
std::string hx(const void*p,size_t n){ static const char*d="0123456789abcdef"; std::string s; const uint8_t*b=(const uint8_t*)p; for(size_t i=0;i<n;i++){ s+=d[b[i]>>4]; s+=d[b[i]&15]; } return s; }
std::string hx(const Bytes&b){ return hx(b.data(),b.size()); }
void budget(u64 s){ g_limit=g_steps+s; }

// ---------------------------------------------------------------- nested images (boots, solo runs): real code in a copy of this process, dropped afterwards
void*shared(size_t n){ void*p=mmap(nullptr,n,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); if(p==MAP_FAILED) harness("mmap"); return p; }
void dropImage(){ S->accSteps+=g_steps; _exit(76); }
void image(const std::function<void()>&f){ u64 keep=g_steps; pid_t p=fork(); if(p<0) harness("fork"); if(p==0){ g_steps=0; budget(600000000ull); f(); dropImage(); }
  int st=0; while(waitpid(p,&st,0)<0&&errno==EINTR){} g_steps=keep; if(S->done) _exit(0); if(WIFEXITED(st)&&WEXITSTATUS(st)==76) return; if(WIFSIGNALED(st)){ signal(WTERMSIG(st),SIG_DFL); raise(WTERMSIG(st)); } _exit(WEXITSTATUS(st)); }

// ---------------------------------------------------------------- writes to the library's statics (a scheduling hint, never a verdict)
extern "C" { extern char __simlib_start[] __attribute__((weak)); extern char __simlib_end[] __attribute__((weak)); }
static u64*wSteps=nullptr; static u32 wN=0,wMax=0; static struct sigaction wOld;
static void wProtect(bool on){ mprotect(__simlib_start,__simlib_end-__simlib_start,on?PROT_READ:PROT_READ|PROT_WRITE); }
static void wRearm(){ g_step_hook_at=~0ull; wProtect(true); }
static void wFault(int,siginfo_t*si,void*){ char*a=(char*)si->si_addr; if(a<__simlib_start||a>=__simlib_end){ sigaction(SIGSEGV,&wOld,nullptr); return; } wProtect(false); if(wN<wMax) wSteps[wN++]=g_steps; if(wN<wMax){ g_step_hook=wRearm; g_step_hook_at=g_steps+1; } }
void watchStatics(u64*steps,u32 max){ wN=0; if(!__simlib_start||__simlib_end<=__simlib_start) return; wSteps=steps; wMax=max; struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_sigaction=wFault; sa.sa_flags=SA_SIGINFO|SA_NODEFER; sigaction(SIGSEGV,&sa,&wOld); wProtect(true); }
u32 staticsSeen(){ return wN; }

// ---------------------------------------------------------------- heap
static int scope_=0; // 0 host 1 device
Dev::Dev():old(scope_){ scope_=1; } Dev::~Dev(){ scope_=old; }
Host::Host():old(scope_){ scope_=0; } Host::~Host(){ scope_=old; }
HeapPlan g_heap; u64 g_allocs=0,g_allocFailures=0; size_t g_liveBytes=0; void(*g_onFree)(void*,size_t,char)=nullptr; void(*g_onAllocSite)(size_t)=nullptr;
struct Blk{ void*p; size_t n; char kind; u32 serial; };
static const u32 TB=1u<<15; static Blk tb[TB]; static u32 nlive=0;
static u32 hsh(void*p){ u64 x=(u64)p>>4; x*=0x9e3779b97f4a7c15ull; return (u32)(x>>40)&(TB-1); }
static Blk*look(void*p){ for(u32 i=hsh(p);;i=(i+1)&(TB-1)){ if(tb[i].p==p) return &tb[i]; if(!tb[i].p) return nullptr; } }
static void ins(void*p,size_t n,char k){ if(nlive>TB/2) harness("live table full"); u32 i=hsh(p); while(tb[i].p) i=(i+1)&(TB-1); tb[i]={p,n,k,(u32)g_allocs}; nlive++; g_liveBytes+=n; }
static void del(Blk*b){ g_liveBytes-=b->n; nlive--; u32 i=b-tb; tb[i].p=nullptr; for(u32 j=(i+1)&(TB-1);tb[j].p;j=(j+1)&(TB-1)){ Blk t=tb[j]; tb[j].p=nullptr; u32 k=hsh(t.p); while(tb[k].p) k=(k+1)&(TB-1); tb[k]=t; } }
size_t liveBlocks(){ return nlive; }
void forgetLive(){ memset(tb,0,sizeof tb); nlive=0; g_liveBytes=0; }
void checkNoLeak(const char*when){ if(nlive){ size_t n=0,first=0; u32 ser=~0u; char k='?'; for(u32 i=0;i<TB;i++) if(tb[i].p){ n++; if(tb[i].serial<ser){ ser=tb[i].serial; first=tb[i].n; k=tb[i].kind; } }
  fail("leak","%s: %zu device blocks (%zu bytes) never released; first: %zu bytes, kind %c, allocation #%u",when,n,g_liveBytes,first,k,ser); } }
static void*devAlloc(size_t n,char kind){ g_allocs++; if(g_onAllocSite) g_onAllocSite(n);
  bool bad = g_liveBytes+n > (g_heap.cap? g_heap.cap : (size_t)8<<20);
  if(bad) count("heap.capacity_refusal");
  if(g_heap.on){ if(g_heap.failAt && g_allocs>=g_heap.failAt && g_allocs<g_heap.failAt+g_heap.failLen) bad=true; if(g_heap.failAbove && n>g_heap.failAbove) bad=true; }
  if(bad){ g_allocFailures++; count("fault.alloc_failed"); return nullptr; }
  void*p=__real_malloc(n); if(!p){ g_allocFailures++; return nullptr; } memset(p,SIM_FILL,n); ins(p,n,kind); return p; }
static void devFree(void*p,char kind){ Blk*b=look(p); if(!b){ __real_free(p); return; }
  if(b->kind!=kind) fail("memory:alloc-dealloc-mismatch","block of kind %c released as kind %c",b->kind,kind);
  if(g_onFree){ Host h; g_onFree(p,b->n,kind); } del(b); __real_free(p); }
}
using namespace sim;
extern "C" {
void*__wrap_malloc(size_t n){ return scope_? devAlloc(n,'m'):__real_malloc(n); }
void*__wrap_calloc(size_t a,size_t b){ if(!scope_) return __real_calloc(a,b); size_t n; if(__builtin_mul_overflow(a,b,&n)) return nullptr; void*p=devAlloc(n,'m'); if(p) memset(p,0,n); return p; }
void*__wrap_realloc(void*p,size_t n){ if(!scope_&&!(p&&look(p))) return __real_realloc(p,n); if(!p) return devAlloc(n,'m'); Blk*b=look(p); if(!b) return __real_realloc(p,n); if(b->kind!='m') fail("memory:alloc-dealloc-mismatch","realloc of kind %c",b->kind);
  size_t o=b->n; void*q=devAlloc(n,'m'); if(!q) return nullptr; memcpy(q,p,o<n?o:n); devFree(p,'m'); return q; }
void __wrap_free(void*p){ if(p) devFree(p,'m'); }
}
static void*opnew(size_t n,char k){ if(!scope_){ void*p=__real_malloc(n); if(!p) abort(); return p; } void*p=devAlloc(n,k); if(!p) throw std::bad_alloc(); return p; }
void*operator new(size_t n){ return opnew(n,'n'); } void*operator new[](size_t n){ return opnew(n,'a'); }
// non-throwing forms are the same device heap; a function-local static is initialised in one go (the C++ guarantee), outside the device heap (it lives as long as the image)
static void*opnewN(size_t n,char k){ return scope_? devAlloc(n,k):__real_malloc(n); }
void*operator new(size_t n,const std::nothrow_t&)noexcept{ return opnewN(n,'n'); } void*operator new[](size_t n,const std::nothrow_t&)noexcept{ return opnewN(n,'a'); }
void operator delete(void*p,const std::nothrow_t&)noexcept{ if(p) devFree(p,'n'); } void operator delete[](void*p,const std::nothrow_t&)noexcept{ if(p) devFree(p,'a'); }
static int guardScope[64]; static int nGuard=0;
extern "C" { int __cxa_guard_acquire(unsigned char*g){ if(g[0]) return 0; g[1]=1; if(nGuard<64) guardScope[nGuard]=scope_; nGuard++; scope_=0; return 1; }
static void guardEnd(){ nGuard--; if(nGuard<64) scope_=guardScope[nGuard]; }
void __cxa_guard_release(unsigned char*g){ g[0]=1; g[1]=0; guardEnd(); } void __cxa_guard_abort(unsigned char*g){ g[1]=0; guardEnd(); } }
void operator delete(void*p)noexcept{ if(p) devFree(p,'n'); } void operator delete(void*p,size_t)noexcept{ if(p) devFree(p,'n'); }
void operator delete[](void*p)noexcept{ if(p) devFree(p,'a'); } void operator delete[](void*p,size_t)noexcept{ if(p) devFree(p,'a'); }
extern "C" {
static u32 nedges=0;
__attribute__((visibility("default"))) void __sanitizer_cov_trace_pc_guard_init(u32*a,u32*b){ for(;a<b;a++) *a=++nedges; }
__attribute__((visibility("default"))) void __sanitizer_cov_trace_pc_guard(u32*g){
  if(!scope_){ if(S&&++g_hostSteps>1500000000ull) fail("hang","no progress: library code called for inspection does not return"); return; }
  u64 s=++g_steps; S->edge[*g&(MAXEDGE-1)]=1;
  if(s>=g_limit) fail("hang","no progress: step budget of the operation exhausted after %llu steps",(unsigned long long)s);
  if(s==g_step_hook_at && g_step_hook){ Host h; g_step_hook(); }
}
// a store into the library's statics is a step too: tasks can be preempted between two of them
static inline void staticStore(void*p){ char*a=(char*)p; if(a<__simlib_start||a>=__simlib_end||!scope_||!S) return; u64 s=++g_steps; if(s>=g_limit) fail("hang","no progress: step budget of the operation exhausted after %llu steps",(unsigned long long)s); if(s==g_step_hook_at && g_step_hook){ Host h; g_step_hook(); } }
#define STORE(n) __attribute__((visibility("default"))) void __sanitizer_cov_store##n(void*p){ staticStore(p); }
STORE(1) STORE(2) STORE(4) STORE(8) STORE(16)
const char*__asan_default_options(){ return "detect_leaks=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:quarantine_size_mb=4:max_malloc_fill_size=0:handle_abort=1:print_legend=0:symbolize=0:use_sigaltstack=0"; }
const char*__ubsan_default_options(){ return "exitcode=99:print_stacktrace=0"; }
}
namespace sim {
static std::map<std::string,Scenario>&regs(){ static std::map<std::string,Scenario> m; return m; }
Reg::Reg(const char*p,Scenario s){ regs()[p]=s; } Scenario find(const char*p){ auto i=regs().find(p); return i==regs().end()?nullptr:i->second; }

struct Result{ u32 verdict; std::string cls,detail,log; std::vector<u32> ch; u64 hash,steps; bool nontriv; };
static int errfd=-1; static bool wantEdges=false;
static Result runOne(Scenario sc,u64 seed,const std::vector<u32>*r,bool text){
  // reset shared state (edge map accumulates)
  S->done=0; S->verdict=0; S->cls[0]=S->detail[0]=0; S->nch=0; S->loghash=1469598103934665603ull; S->nlog=0; S->loglen=0; S->steps=0; S->nontriv=0; S->ncnt=0; memset(S->cnt,0,sizeof S->cnt);
  keepText=text; S->rs=seed; S->accSteps=0; rep=r; if(ftruncate(errfd,0)){} lseek(errfd,0,SEEK_SET);
  fflush(stdout); pid_t p=fork();
  if(p==0){ dup2(errfd,2); { struct rlimit rl={60,61}; setrlimit(RLIMIT_CPU,&rl); } g_steps=g_hostSteps=0; budget(600000000ull); sc(); finish(); }
  int st=0; while(waitpid(p,&st,0)<0&&errno==EINTR){} Result o;
  if(!S->done){ char e[6000]; lseek(errfd,0,SEEK_SET); int n=read(errfd,e,sizeof e-1); if(n<0)n=0; e[n]=0; std::string cls;
    if(const char*q=strstr(e,"ERROR: AddressSanitizer: ")){ q+=25; std::string w; while(*q&&*q!=' '&&*q!='\n') w+=*q++; cls="memory:"+w; }
    else if(const char*q=strstr(e,"runtime error: ")){ q+=15; std::string w; int k=0; while(*q&&*q!='\n'&&k<3){ if(*q==' ')k++; if(!(*q>='0'&&*q<='9')) w+=*q; q++; } for(char&c:w) if(!isalnum((unsigned char)c)) c='-'; while(w.size()&&w.back()=='-') w.pop_back(); cls="ub:"+w; }
    else if(WIFSIGNALED(st)&&(WTERMSIG(st)==SIGXCPU||WTERMSIG(st)==SIGKILL)){ cls="wallclock"; }
    else if(WIFSIGNALED(st)) cls="crash:signal"+std::to_string(WTERMSIG(st)); else cls="crash:exit"+std::to_string(WEXITSTATUS(st));
    std::string d; for(const char*q=e;*q&&d.size()<700;q++){ d+=*q; }
    // keep only deterministic first lines: drop pids and addresses
    std::string dd; for(size_t i=0;i<d.size();i++){ if(d[i]=='0'&&i+1<d.size()&&d[i+1]=='x'){ dd+="0x?"; i+=2; while(i<d.size()&&isxdigit(d[i])) i++; i--; } else dd+=d[i]; }
    S->verdict= cls=="wallclock"?2:1; snprintf(S->cls,sizeof S->cls,"%s",cls.c_str()); snprintf(S->detail,sizeof S->detail,"%s",dd.c_str()); fold(cls.data(),cls.size()); }
  o.verdict=S->verdict; o.cls=S->cls; o.detail=S->detail; o.hash=S->loghash; o.steps=S->steps; o.nontriv=S->nontriv; if(text) o.log.assign(S->log,S->loglen);
  o.ch.assign(S->ch,S->ch+S->nch); return o; }
static double now(){ timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }
static std::vector<u32> shrink(Scenario sc,std::vector<u32> c,const std::string&cls,double maxS,u64&tries){
  double end=now()+maxS; auto ok=[&](const std::vector<u32>&x){ tries++; Result r=runOne(sc,0,&x,false); return r.verdict==1&&r.cls==cls; };
  auto trim=[&](std::vector<u32>&x){ while(x.size()&&x.back()==0) x.pop_back(); };
  trim(c); bool any=true;
  while(any&&now()<end){ any=false;
    for(size_t len=c.size();len>=1&&now()<end;len/=2){ // drop or zero spans
      for(size_t at=0;at+len<=c.size()&&now()<end;){ std::vector<u32> x=c; x.erase(x.begin()+at,x.begin()+at+len); trim(x); if(ok(x)){ c=x; any=true; continue; }
        x=c; bool nz=false; for(size_t i=at;i<at+len;i++){ if(x[i]) nz=true; x[i]=0; } trim(x); if(nz&&ok(x)){ c=x; any=true; if(at+len>c.size()) break; }
        at+=len; } }
    for(size_t i=0;i<c.size()&&now()<end;i++) while(c[i]&&now()<end){ u32 v=c[i]; bool hit=false; for(u32 t: {v/2,v-1}){ std::vector<u32> x=c; x[i]=t; trim(x); if(ok(x)){ c=x; any=true; hit=true; break; } } if(!hit||i>=c.size()) break; }
  }
  return c; }
static std::string jesc(const std::string&s){ std::string o; for(char ch:s){ if(ch=='"'||ch=='\\'){ o+='\\'; o+=ch; } else if(ch=='\n') o+="\\n"; else if((unsigned char)ch<32||(unsigned char)ch>126){ char b[8]; snprintf(b,8,"\\u%04x",(unsigned char)ch); o+=b; } else o+=ch; } return o; }
}
// usage: sim run PROP BASE START STRIDE COUNT SECONDS OUT.json REPLAYPATH | sim replay FILE | sim hashes PROP BASE START STRIDE COUNT | sim selftest
int main(int ac,char**av){
  { int p=personality(0xffffffff); if(p>=0&&!(p&ADDR_NO_RANDOMIZE)&&!getenv("SIM_REEXEC")&&personality(p|ADDR_NO_RANDOMIZE)>=0){ setenv("SIM_REEXEC","1",1); execv("/proc/self/exe",av); } } // fixed addresses where permitted
  ref::mulG(ref::u256((uint64_t)5)); /* build the reference tables once, before forking */
  setvbuf(stdout,nullptr,_IOLBF,0);
  S=(Shm*)mmap(nullptr,sizeof(Shm),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); errfd=memfd_create("err",0);
  std::string mode=ac>1?av[1]:"";
  if(mode=="selftest"){ std::string e; if(!ref::selftest(e)){ printf("reference model self-test failed: %s\n",e.c_str()); return 2; } printf("ok\n"); return 0; }
  if(mode=="replay"){ FILE*f=fopen(av[2],"r"); if(!f) return 2; char prop[32]=""; std::vector<u32> c; char line[1<<16]; std::string want;
    while(fgets(line,sizeof line,f)){ if(!strncmp(line,"property ",9)) sscanf(line+9,"%31s",prop); else if(!strncmp(line,"choices",7)){ char*p=line+7; for(;;){ char*q; unsigned long v=strtoul(p,&q,10); if(q==p) break; c.push_back(v); p=q; } } else if(!strncmp(line,"trace",5)) break; }
    fclose(f); Scenario sc=find(prop); if(!sc) return 2; Result r=runOne(sc,0,&c,true); printf("%s%s\nreplay verdict=%u class=%s hash=%016llx\n",r.log.c_str(),r.detail.c_str(),r.verdict,r.cls.c_str(),(unsigned long long)r.hash); return r.verdict==1?1:r.verdict==0?0:2; }
  if(mode=="hashes"){ Scenario sc=find(av[2]); u64 base=strtoull(av[3],0,10),st=strtoull(av[4],0,10),sd=strtoull(av[5],0,10),n=strtoull(av[6],0,10); for(u64 i=0;i<n;i++){ u64 k=st+i*sd; Result r=runOne(sc,base*0x9e3779b97f4a7c15ull+k*0xd1342543de82ef95ull+7,nullptr,false); printf("%llu %u %016llx\n",(unsigned long long)k,r.verdict,(unsigned long long)r.hash); } return 0; }
  if(mode!="run"||ac<10){ fprintf(stderr,"usage\n"); return 2; }
  std::string prop=av[2]; Scenario sc=find(av[2]); if(!sc){ fprintf(stderr,"no scenario %s\n",av[2]); return 2; }
  u64 base=strtoull(av[3],0,10),start=strtoull(av[4],0,10),stride=strtoull(av[5],0,10),cnt=strtoull(av[6],0,10); double secs=atof(av[7]); const char*out=av[8]; const char*rpath=av[9];
  double t0=now(); u64 runs=0,steps=0,nontr=0,det=0; std::unordered_set<u64> seen,seenNT; std::map<std::string,u64> cn; std::map<std::string,u64> runsWith; std::vector<std::string> samples; std::string found,err,fcls,fdetail; u64 tries=0; size_t shr0=0,shr1=0; u64 fseed=0;
  for(u64 i=0;i<cnt;i++){ if(now()-t0>secs) break; u64 k=start+i*stride; u64 seed=base*0x9e3779b97f4a7c15ull+k*0xd1342543de82ef95ull+7; bool text=samples.size()<2&&i%7==3;
    Result r=runOne(sc,seed,nullptr,text); runs++; steps+=r.steps; seen.insert(r.hash); if(r.nontriv){ nontr++; seenNT.insert(r.hash); }
    for(u32 c=0;c<S->ncnt;c++){ cn[S->cnt[c].name]+=S->cnt[c].v; runsWith[S->cnt[c].name]++; }
    if(text&&r.nontriv){ samples.push_back("seed "+std::to_string(k)+": "+r.log.substr(0,1500)); }
    if(r.verdict==2){ err="seed "+std::to_string(k)+": "+r.cls+": "+r.detail; break; }
    if(r.verdict==1){ Result r2=runOne(sc,seed,nullptr,false); if(r2.verdict!=1||r2.cls!=r.cls||r2.hash!=r.hash){ err="seed "+std::to_string(k)+" failed ("+r.cls+") but did not repeat"; break; }
      shr0=r.ch.size(); fseed=k; std::vector<u32> c=shrink(sc,r.ch,r.cls,25,tries); Result m=runOne(sc,0,&c,true); if(m.verdict!=1){ c=r.ch; m=runOne(sc,0,&c,true); } if(m.verdict!=1){ err="choice replay does not reproduce seed "+std::to_string(k); break; } shr1=c.size();
      FILE*f=fopen(rpath,"w"); if(!f){ err="cannot write replay"; break; } fprintf(f,"# minimised replay: 'sim replay FILE' (built by run.py) reproduces this exactly\nproperty %s\nbase %llu\nseed %llu\nvariant %s\nclass %s\nhash %016llx\ndetail %s\nchoices",prop.c_str(),(unsigned long long)base,(unsigned long long)k,g_variantZero?"zero":"pattern",m.cls.c_str(),(unsigned long long)m.hash,jesc(m.detail).c_str()); for(u32 v:c) fprintf(f," %u",v); fprintf(f,"\ntrace\n%s",m.log.c_str()); fclose(f);
      found=rpath; fcls=m.cls; fdetail=m.detail; break; }
    if(i%40==0){ u64 h=r.hash; Result r2=runOne(sc,seed,nullptr,false); det++; if(r2.hash!=h||r2.verdict!=0){ err="seed "+std::to_string(k)+" is not deterministic"; break; } }
  }
  u32 ne=0; for(u32 i=0;i<MAXEDGE;i++) ne+=S->edge[i];
  FILE*f=fopen(out,"w"); if(!f) return 2; fprintf(f,"{\"runs\":%llu,\"steps\":%llu,\"nontrivial\":%llu,\"distinct\":%zu,\"distinct_nontrivial\":%zu,\"determinism_checks\":%llu,\"edges\":%u,\"edges_total\":%u,\"wall\":%.3f,\"variant\":\"%s\",\"error\":\"%s\",\"found\":\"%s\",\"class\":\"%s\",\"detail\":\"%s\",\"shrink_tries\":%llu,\"choices_before\":%zu,\"choices_after\":%zu,\"seed\":%llu,\n\"counters\":{",(unsigned long long)runs,(unsigned long long)steps,(unsigned long long)nontr,seen.size(),seenNT.size(),(unsigned long long)det,ne,nedges,now()-t0,g_variantZero?"zero":"pattern",jesc(err).c_str(),found.c_str(),jesc(fcls).c_str(),jesc(fdetail).c_str(),(unsigned long long)tries,shr0,shr1,(unsigned long long)fseed);
  bool first=true; for(auto&p:cn){ fprintf(f,"%s\"%s\":[%llu,%llu]",first?"":",",p.first.c_str(),(unsigned long long)p.second,(unsigned long long)runsWith[p.first]); first=false; } fprintf(f,"},\n\"samples\":["); first=true; for(auto&s:samples){ fprintf(f,"%s\"%s\"",first?"":",",jesc(s).c_str()); first=false; } fprintf(f,"],\n\"edgemap\":\""); for(u32 i=0;i<MAXEDGE;i+=4){ int v=0; for(int b=0;b<4;b++) v|=S->edge[i+b]<<b; fputc("0123456789abcdef"[v],f); } fprintf(f,"\"}\n"); fclose(f);
  { std::string hn=std::string(out)+".hashes"; FILE*h=fopen(hn.c_str(),"wb"); if(h){ for(u64 v:seenNT) fwrite(&v,8,1,h); fclose(h); } }
  return found.size()?1:err.size()?2:0;
}
