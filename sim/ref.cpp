#include "ref.h"
#include "wordlist.h"
namespace ref {
typedef unsigned __int128 u128;
std::string hex(const Bytes&b){ static const char*d="0123456789abcdef"; std::string s; for(auto c:b){ s+=d[c>>4]; s+=d[c&15]; } return s; }
Bytes unhex(const std::string&s){ Bytes r; for(size_t i=0;i+1<s.size();i+=2) r.push_back((uint8_t)std::stoi(s.substr(i,2),0,16)); return r; }
// ---- hashes
static u32 ror(u32 x,int n){ return (x>>n)|(x<<(32-n)); } static u64 ror64(u64 x,int n){ return (x>>n)|(x<<(64-n)); } static u32 rol(u32 x,int n){ return (x<<n)|(x>>(32-n)); }
static u32 K256[64]; static u64 K512[80]; static u32 H256[8]; static u64 H512[8]; static bool kinit=false;
// derive constants from primes instead of typing them: frac(sqrt(p)), frac(cbrt(p)) by integer root search
static u64 fracroot(int p,int k){ // floor(frac(p^(1/k))*2^64) using big integer bisection on 128+ bits
  // find integer part
  int ip=1; while(true){ long v=1; for(int i=0;i<k;i++) v*=ip+1; if(v>p) break; ip++; }
  // bisect fraction f: (ip*2^64+f)^k <= p*2^(64k). numbers up to 5 bits+64 -> k=3: 210 bits; use 4 limb arithmetic
  u64 f=0;
  for(int b=63;b>=0;b--){ u64 t=f|(1ull<<b);
    u64 x[2]={t,(u64)ip}; u64 acc[5]={1,0,0,0,0};
    for(int i=0;i<k;i++){ u64 r[5]={0}; for(int a=0;a<5;a++){ u128 c=0; for(int j=0;j<2&&a+j<5;j++){ u128 m=(u128)acc[a]*x[j]+r[a+j]+c; r[a+j]=(u64)m; c=m>>64; } if(a+2<5){ u128 m=(u128)r[a+2]+c; r[a+2]=(u64)m; c=m>>64; if(a+3<5) r[a+3]+=(u64)c; } } memcpy(acc,r,sizeof r); }
    u64 lim[5]={0}; lim[k]=p; bool le=true; for(int i=4;i>=0;i--){ if(acc[i]!=lim[i]){ le=acc[i]<lim[i]; break; } }
    if(le) f=t; }
  return f; }
static void kin(){ if(kinit) return; int n=0; for(int p=2;n<80;p++){ bool pr=true; for(int d=2;d*d<=p;d++) if(p%d==0) pr=false; if(!pr) continue; u64 c=fracroot(p,3); K512[n]=c; if(n<64) K256[n]=c>>32; if(n<8){ u64 s=fracroot(p,2); H512[n]=s; H256[n]=s>>32; } n++; } kinit=true; }
Bytes sha256(const Bytes&m){ kin(); Bytes b=m; b.push_back(0x80); while(b.size()%64!=56) b.push_back(0); for(int i=7;i>=0;i--) b.push_back(((u64)m.size()*8)>>(8*i));
  u32 h[8]; memcpy(h,H256,32);
  for(size_t o=0;o<b.size();o+=64){ u32 w[64]; for(int i=0;i<16;i++) w[i]=(u32)b[o+4*i]<<24|(u32)b[o+4*i+1]<<16|(u32)b[o+4*i+2]<<8|b[o+4*i+3];
    for(int i=16;i<64;i++){ u32 s0=ror(w[i-15],7)^ror(w[i-15],18)^(w[i-15]>>3), s1=ror(w[i-2],17)^ror(w[i-2],19)^(w[i-2]>>10); w[i]=w[i-16]+s0+w[i-7]+s1; }
    u32 a[8]; memcpy(a,h,32); for(int i=0;i<64;i++){ u32 t1=a[7]+(ror(a[4],6)^ror(a[4],11)^ror(a[4],25))+((a[4]&a[5])^(~a[4]&a[6]))+K256[i]+w[i]; u32 t2=(ror(a[0],2)^ror(a[0],13)^ror(a[0],22))+((a[0]&a[1])^(a[0]&a[2])^(a[1]&a[2])); for(int j=7;j>0;j--) a[j]=a[j-1]; a[4]+=t1; a[0]=t1+t2; }
    for(int i=0;i<8;i++) h[i]+=a[i]; }
  Bytes r; for(int i=0;i<8;i++) for(int j=3;j>=0;j--) r.push_back(h[i]>>(8*j)); return r; }
struct S512{ u64 h[8]; };
static void c512(u64*h,const uint8_t*b){ u64 w[80]; for(int i=0;i<16;i++){ w[i]=0; for(int j=0;j<8;j++) w[i]=w[i]<<8|b[8*i+j]; }
  for(int i=16;i<80;i++){ u64 s0=ror64(w[i-15],1)^ror64(w[i-15],8)^(w[i-15]>>7), s1=ror64(w[i-2],19)^ror64(w[i-2],61)^(w[i-2]>>6); w[i]=w[i-16]+s0+w[i-7]+s1; }
  u64 a[8]; memcpy(a,h,64); for(int i=0;i<80;i++){ u64 t1=a[7]+(ror64(a[4],14)^ror64(a[4],18)^ror64(a[4],41))+((a[4]&a[5])^(~a[4]&a[6]))+K512[i]+w[i]; u64 t2=(ror64(a[0],28)^ror64(a[0],34)^ror64(a[0],39))+((a[0]&a[1])^(a[0]&a[2])^(a[1]&a[2])); for(int j=7;j>0;j--) a[j]=a[j-1]; a[4]+=t1; a[0]=t1+t2; }
  for(int i=0;i<8;i++) h[i]+=a[i]; }
static Bytes sha512from(const u64*iv,size_t pre,const Bytes&m){ Bytes b=m; b.push_back(0x80); while(b.size()%128!=112) b.push_back(0); for(int i=0;i<8;i++) b.push_back(0); for(int i=7;i>=0;i--) b.push_back(((u64)(m.size()+pre)*8)>>(8*i));
  u64 h[8]; memcpy(h,iv,64); for(size_t o=0;o<b.size();o+=128) c512(h,&b[o]); Bytes r; for(int i=0;i<8;i++) for(int j=7;j>=0;j--) r.push_back(h[i]>>(8*j)); return r; }
Bytes sha512(const Bytes&m){ kin(); return sha512from(H512,0,m); }
Bytes ripemd160(const Bytes&m){
  static const int r1[80]={0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,7,4,13,1,10,6,15,3,12,0,9,5,2,14,11,8,3,10,14,4,9,15,8,1,2,7,0,6,13,11,5,12,1,9,11,10,0,8,12,4,13,3,7,15,14,5,6,2,4,0,5,9,7,12,2,10,14,1,3,8,11,6,15,13};
  static const int r2[80]={5,14,7,0,9,2,11,4,13,6,15,8,1,10,3,12,6,11,3,7,0,13,5,10,14,15,8,12,4,9,1,2,15,5,1,3,7,14,6,9,11,8,12,2,10,0,4,13,8,6,4,1,3,11,15,0,5,12,2,13,9,7,10,14,12,15,10,4,1,5,8,7,6,2,13,14,0,3,9,11};
  static const int s1[80]={11,14,15,12,5,8,7,9,11,13,14,15,6,7,9,8,7,6,8,13,11,9,7,15,7,12,15,9,11,7,13,12,11,13,6,7,14,9,13,15,14,8,13,6,5,12,7,5,11,12,14,15,14,15,9,8,9,14,5,6,8,6,5,12,9,15,5,11,6,8,13,12,5,12,13,14,11,8,5,6};
  static const int s2[80]={8,9,9,11,13,15,15,5,7,7,8,11,14,14,12,6,9,13,15,7,12,8,9,11,7,7,12,7,6,15,13,11,9,7,15,11,8,6,6,14,12,13,5,14,13,13,7,5,15,5,8,11,14,14,6,14,6,9,12,9,12,5,15,8,8,5,12,9,12,5,14,6,8,13,6,5,15,13,11,11};
  static const u32 k1[5]={0,0x5a827999,0x6ed9eba1,0x8f1bbcdc,0xa953fd4e},k2[5]={0x50a28be6,0x5c4dd124,0x6d703ef3,0x7a6d76e9,0};
  Bytes b=m; b.push_back(0x80); while(b.size()%64!=56) b.push_back(0); put(b,(u64)m.size()*8,8);
  u32 h[5]={0x67452301,0xefcdab89,0x98badcfe,0x10325476,0xc3d2e1f0};
  auto f=[](int j,u32 x,u32 y,u32 z)->u32{ switch(j){case 0:return x^y^z;case 1:return (x&y)|(~x&z);case 2:return (x|~y)^z;case 3:return (x&z)|(y&~z);default:return x^(y|~z);} };
  for(size_t o=0;o<b.size();o+=64){ u32 w[16]; for(int i=0;i<16;i++) w[i]=b[o+4*i]|(u32)b[o+4*i+1]<<8|(u32)b[o+4*i+2]<<16|(u32)b[o+4*i+3]<<24;
    u32 A=h[0],C=h[2],Bq=h[1],D=h[3],E=h[4],a=A,bb=Bq,c=C,d=D,e=E;
    for(int j=0;j<80;j++){ u32 t=rol(A+f(j/16,Bq,C,D)+w[r1[j]]+k1[j/16],s1[j])+E; A=E;E=D;D=rol(C,10);C=Bq;Bq=t; t=rol(a+f(4-j/16,bb,c,d)+w[r2[j]]+k2[j/16],s2[j])+e; a=e;e=d;d=rol(c,10);c=bb;bb=t; }
    u32 t=h[1]+C+d; h[1]=h[2]+D+e; h[2]=h[3]+E+a; h[3]=h[4]+A+bb; h[4]=h[0]+Bq+c; h[0]=t; }
  Bytes r; for(int i=0;i<5;i++) put(r,h[i],4); return r; }
Bytes dsha(const Bytes&m){ return sha256(sha256(m)); } Bytes hash160(const Bytes&m){ return ripemd160(sha256(m)); }
static Bytes hm(const Bytes&k,const Bytes&m,size_t bs,Bytes(*h)(const Bytes&)){ Bytes kk=k.size()>bs?h(k):k; kk.resize(bs); Bytes i=kk,o=kk; for(auto&c:i)c^=0x36; for(auto&c:o)c^=0x5c; return h(cat(o,h(cat(i,m)))); }
Bytes hmac256(const Bytes&k,const Bytes&m){ return hm(k,m,64,sha256); } Bytes hmac512(const Bytes&k,const Bytes&m){ return hm(k,m,128,sha512); }
Bytes tagged(const std::string&t,const Bytes&m){ Bytes h=sha256(B(t.data(),t.size())); return sha256(cat(cat(h,h),m)); }
Bytes pbkdf2_512(const Bytes&pw,const Bytes&salt,int rounds,int len){ kin(); Bytes kk=pw.size()>128?sha512(pw):pw; kk.resize(128); u64 iv[8],ov[8]; Bytes i=kk,o=kk; for(auto&c:i)c^=0x36; for(auto&c:o)c^=0x5c; memcpy(iv,H512,64); memcpy(ov,H512,64); c512(iv,&i[0]); c512(ov,&o[0]);
  auto mac=[&](const Bytes&m){ return sha512from(ov,128,sha512from(iv,128,m)); };
  Bytes s=salt; s.push_back(0);s.push_back(0);s.push_back(0);s.push_back(1); Bytes u=mac(s),t=u; for(int r=1;r<rounds;r++){ u=mac(u); for(int j=0;j<64;j++) t[j]^=u[j]; } t.resize(len); return t; }
// ---- 256 bit
const U256 P_={{0xFFFFFFFEFFFFFC2Full,~0ull,~0ull,~0ull}};
const U256 N_={{0xBFD25E8CD0364141ull,0xBAAEDCE6AF48A03Bull,0xFFFFFFFFFFFFFFFEull,~0ull}};
U256 u256(const uint8_t*b){ U256 r; for(int i=0;i<4;i++){ u64 x=0; for(int j=0;j<8;j++) x=x<<8|b[8*(3-i)+j]; r.v[i]=x; } return r; }
U256 u256(u64 x){ return U256{{x,0,0,0}}; }
Bytes be(const U256&a){ Bytes r(32); for(int i=0;i<4;i++) for(int j=0;j<8;j++) r[8*(3-i)+j]=a.v[i]>>(8*(7-j)); return r; }
bool isZero(const U256&a){ return !(a.v[0]|a.v[1]|a.v[2]|a.v[3]); }
int cmp(const U256&a,const U256&b){ for(int i=3;i>=0;i--) if(a.v[i]!=b.v[i]) return a.v[i]<b.v[i]?-1:1; return 0; }
static int addc(U256&r,const U256&a,const U256&b){ u128 c=0; for(int i=0;i<4;i++){ c+=(u128)a.v[i]+b.v[i]; r.v[i]=(u64)c; c>>=64; } return (int)c; }
static int subb(U256&r,const U256&a,const U256&b){ u64 br=0; for(int i=0;i<4;i++){ u128 t=(u128)a.v[i]-b.v[i]-br; r.v[i]=(u64)t; br=(t>>64)?1:0; } return (int)br; }
static U256 madd(const U256&a,const U256&b,const U256&m){ U256 r; int c=addc(r,a,b); if(c||cmp(r,m)>=0) subb(r,r,m); return r; }
static U256 msub(const U256&a,const U256&b,const U256&m){ U256 r; if(subb(r,a,b)) addc(r,r,m); return r; }
static void mulw(u64*o,const U256&a,const U256&b){ memset(o,0,64); for(int i=0;i<4;i++){ u128 c=0; for(int j=0;j<4;j++){ c+=(u128)a.v[i]*b.v[j]+o[i+j]; o[i+j]=(u64)c; c>>=64; } o[i+4]=(u64)c; } }
// reduce 512-bit by folding with K=2^256-m
static U256 red(const u64*in,const U256&m){ U256 K; U256 z={{0,0,0,0}}; subb(K,z,m); u64 t[8]; memcpy(t,in,64);
  while(t[4]|t[5]|t[6]|t[7]){ U256 hi={{t[4],t[5],t[6],t[7]}}; u64 p[8]; mulw(p,hi,K); u128 c=0; for(int i=0;i<8;i++){ c+=(u128)p[i]+(i<4?t[i]:0); t[i]=(u64)c; c>>=64; } }
  U256 r={{t[0],t[1],t[2],t[3]}}; while(cmp(r,m)>=0) subb(r,r,m); return r; }
static U256 mmul(const U256&a,const U256&b,const U256&m){ u64 w[8]; mulw(w,a,b); return red(w,m); }
static U256 mpow(const U256&a,const U256&e,const U256&m){ U256 r=u256((u64)1); for(int i=255;i>=0;i--){ r=mmul(r,r,m); if(e.v[i/64]>>(i%64)&1) r=mmul(r,a,m); } return r; }
static U256 minv(const U256&a,const U256&m){ U256 e; subb(e,m,u256((u64)2)); return mpow(a,e,m); }
U256 modN(const U256&a){ U256 r=a; while(cmp(r,N_)>=0) subb(r,r,N_); return r; }
U256 addN(const U256&a,const U256&b){ return madd(modN(a),modN(b),N_); } U256 mulN(const U256&a,const U256&b){ return mmul(a,b,N_); } U256 invN(const U256&a){ return minv(a,N_); }
U256 negN(const U256&a){ U256 r; if(isZero(a)) return a; subb(r,N_,a); return r; }
struct J{ U256 x,y,z; bool inf; };
#define M(a,b) mmul(a,b,P_)
#define A_(a,b) madd(a,b,P_)
#define S_(a,b) msub(a,b,P_)
static J jd(const J&p){ if(p.inf||isZero(p.y)){ J r=p; r.inf=true; return r; } U256 a=M(p.x,p.x),b=M(p.y,p.y),c=M(b,b); U256 d=S_(S_(M(A_(p.x,b),A_(p.x,b)),a),c); d=A_(d,d); U256 e=A_(A_(a,a),a),f=M(e,e); J r; r.inf=false; r.x=S_(f,A_(d,d)); U256 c8=A_(c,c); c8=A_(c8,c8); c8=A_(c8,c8); r.y=S_(M(e,S_(d,r.x)),c8); r.z=M(p.y,p.z); r.z=A_(r.z,r.z); return r; }
static J ja(const J&p,const J&q){ if(p.inf) return q; if(q.inf) return p; U256 z1=M(p.z,p.z),z2=M(q.z,q.z),u1=M(p.x,z2),u2=M(q.x,z1),s1=M(p.y,M(z2,q.z)),s2=M(q.y,M(z1,p.z)); if(cmp(u1,u2)==0){ if(cmp(s1,s2)==0) return jd(p); J r=p; r.inf=true; return r; }
  U256 h=S_(u2,u1),r_=S_(s2,s1),h2=M(h,h),h3=M(h2,h),v=M(u1,h2); J r; r.inf=false; r.x=S_(S_(M(r_,r_),h3),A_(v,v)); r.y=S_(M(r_,S_(v,r.x)),M(s1,h3)); r.z=M(h,M(p.z,q.z)); return r; }
static J toJ(const Point&p){ J j; j.x=p.x; j.y=p.y; j.z=u256((u64)1); j.inf=p.inf; return j; }
static Point fromJ(const J&j){ Point p; p.inf=j.inf; if(j.inf){ p.x=p.y=u256((u64)0); return p; } U256 zi=minv(j.z,P_),z2=M(zi,zi); p.x=M(j.x,z2); p.y=M(j.y,M(z2,zi)); return p; }
Point G(){ Point p; p.inf=false; p.x=u256(&unhex("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798")[0]); p.y=u256(&unhex("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8")[0]); return p; }
static J GT[64][16]; static bool gt=false;
Point mulG(const U256&k){ if(!gt){ J g=toJ(G()); for(int i=0;i<64;i++){ GT[i][0].inf=true; for(int j=1;j<16;j++){ J t=GT[i][j-1].inf?g:ja(GT[i][j-1],g); GT[i][j]=toJ(fromJ(t)); } g=ja(GT[i][15],g); g=toJ(fromJ(g)); } gt=true; }
  J r; r.inf=true; r.x=r.y=r.z=u256((u64)0); for(int i=0;i<64;i++){ int d=k.v[i/16]>>(4*(i%16))&15; if(d) r=ja(r,GT[i][d]); } return fromJ(r); }
Point mul(const Point&p,const U256&k){ J r; r.inf=true; r.x=r.y=r.z=u256((u64)0); J q=toJ(p); for(int i=255;i>=0;i--){ r=jd(r); if(k.v[i/64]>>(i%64)&1) r=ja(r,q); } return fromJ(r); }
Point add(const Point&a,const Point&b){ return fromJ(ja(toJ(a),toJ(b))); } Point neg(const Point&a){ Point r=a; if(!a.inf) r.y=S_(u256((u64)0),a.y); return r; }
bool odd(const Point&p){ return p.y.v[0]&1; }
bool onCurve(const Point&p){ if(p.inf||cmp(p.x,P_)>=0||cmp(p.y,P_)>=0) return false; return cmp(M(p.y,p.y),A_(M(p.x,M(p.x,p.x)),u256((u64)7)))==0; }
bool lift(const U256&x,bool od,Point&o){ if(cmp(x,P_)>=0) return false; U256 y2=A_(M(x,M(x,x)),u256((u64)7)); U256 e; addc(e,P_,u256((u64)1)); /* (p+1)/4: p+1 does not overflow */ for(int k=0;k<2;k++){ for(int i=0;i<4;i++){ e.v[i]>>=1; if(i<3) e.v[i]|=e.v[i+1]<<63; } } U256 y=mpow(y2,e,P_); if(cmp(M(y,y),y2)) return false; if((y.v[0]&1)!=(u64)od) y=S_(u256((u64)0),y); o.inf=false; o.x=x; o.y=y; return true; }
Bytes sec(const Point&p,bool c){ Bytes r; if(c){ r.push_back(2+odd(p)); app(r,be(p.x)); } else { r.push_back(4); app(r,be(p.x)); app(r,be(p.y)); } return r; }
bool parseSec(const Bytes&b,Point&p){ if(b.size()==33&&(b[0]==2||b[0]==3)) return lift(u256(&b[1]),b[0]&1,p); if(b.size()==65&&b[0]==4){ p.inf=false; p.x=u256(&b[1]); p.y=u256(&b[33]); return onCurve(p); } return false; }
// ---- ecdsa
Ecdsa sign(const Bytes&key,const Bytes&hash){ Bytes K(32,0),V(32,1); U256 d=u256(&key[0]),z=modN(u256(&hash[0])); Bytes h1=be(z); auto step=[&](uint8_t c,bool full){ Bytes m=V; m.push_back(c); if(full){ app(m,key); app(m,h1); } K=hmac256(K,m); V=hmac256(K,V); }; step(0,true); step(1,true);
  for(;;){ V=hmac256(K,V); U256 k=u256(&V[0]); if(!isZero(k)&&cmp(k,N_)<0){ Point R=mulG(k); U256 r=modN(R.x); if(!isZero(r)){ U256 s=mulN(invN(k),addN(z,mulN(r,d))); if(!isZero(s)){ int rec=(odd(R)?1:0)|(cmp(R.x,N_)>=0?2:0); U256 ns=negN(s); if(cmp(s,ns)>0){ s=ns; rec^=1; } Ecdsa e; e.r=be(r); e.s=be(s); e.recid=rec; return e; } } } step(0,false); } }
bool verify(const Point&Q,const Bytes&hash,const Bytes&rb,const Bytes&sb){ U256 r=u256(&rb[0]),s=u256(&sb[0]); if(isZero(r)||isZero(s)||cmp(r,N_)>=0||cmp(s,N_)>=0) return false; U256 z=modN(u256(&hash[0])),w=invN(s); Point R=add(mulG(mulN(z,w)),mul(Q,mulN(r,w))); if(R.inf) return false; return cmp(modN(R.x),r)==0; }
static Bytes derInt(const Bytes&x){ Bytes r; size_t i=0; while(i<31&&x[i]==0) i++; if(x[i]&0x80) r.push_back(0); r.insert(r.end(),x.begin()+i,x.end()); return r; }
Bytes der(const Bytes&r,const Bytes&s){ Bytes a=derInt(r),b=derInt(s),o; o.push_back(0x30); o.push_back(a.size()+b.size()+4); o.push_back(2); o.push_back(a.size()); app(o,a); o.push_back(2); o.push_back(b.size()); app(o,b); return o; }
static bool rdInt(const Bytes&d,size_t&p,Bytes&o){ if(p+2>d.size()||d[p]!=2) return false; size_t l=d[p+1]; p+=2; if(l==0||l>33||p+l>d.size()) return false; if(d[p]&0x80) return false; if(l>1&&d[p]==0&&!(d[p+1]&0x80)) return false; Bytes x(d.begin()+p,d.begin()+p+l); p+=l; if(x.size()==33){ if(x[0]) return false; x.erase(x.begin()); } o=Bytes(32-x.size(),0); app(o,x); return true; }
bool under(const Bytes&d,Bytes&r,Bytes&s){ if(d.size()<8||d[0]!=0x30||(size_t)d[1]+2!=d.size()) return false; size_t p=2; return rdInt(d,p,r)&&rdInt(d,p,s)&&p==d.size(); }
bool schnorrVerify(const Bytes&x,const Bytes&m,const Bytes&sg){ Point Pt; if(!lift(u256(&x[0]),false,Pt)) return false; U256 r=u256(&sg[0]),s=u256(&sg[32]); if(cmp(r,P_)>=0||cmp(s,N_)>=0) return false; U256 e=modN(u256(&tagged("BIP0340/challenge",cat(cat(B(&sg[0],32),x),m))[0])); Point R=add(mulG(s),mul(Pt,negN(e))); return !R.inf&&!odd(R)&&cmp(R.x,r)==0; }
// ---- hd
HD master(const Bytes&seed){ Bytes I=hmac512(B("Bitcoin seed",12),seed); HD h; h.key=B(&I[0],32); h.cc=B(&I[32],32); h.depth=0; h.pfp=Bytes(4,0); h.child=0; return h; }
static Bytes pub(const HD&h){ return sec(mulG(u256(&h.key[0])),true); }
Bytes fingerprint(const HD&h){ Bytes f=hash160(pub(h)); f.resize(4); return f; }
HD ckd(const HD&h,u32 i){ Bytes d,p=pub(h); if(i>>31){ d.push_back(0); app(d,h.key); } else d=p; for(int j=3;j>=0;j--) d.push_back(i>>(8*j)); Bytes I=hmac512(h.cc,d); HD c; c.key=be(addN(u256(&I[0]),u256(&h.key[0]))); c.cc=B(&I[32],32); c.depth=h.depth+1; c.pfp=hash160(p); c.pfp.resize(4); c.child=i; return c; }
HD derive(const HD&h,const std::vector<u32>&p){ HD r=h; for(u32 i:p) r=ckd(r,i); return r; }
static Bytes hdHead(const HD&h,const uint8_t v[4]){ Bytes r=B(v,4); r.push_back(h.depth); app(r,h.pfp); for(int j=3;j>=0;j--) r.push_back(h.child>>(8*j)); app(r,h.cc); return r; }
Bytes hdRaw(const HD&h,const uint8_t v[4]){ Bytes r=hdHead(h,v); r.push_back(0); app(r,h.key); return r; }
Bytes hdPubRaw(const HD&h,const uint8_t v[4]){ Bytes r=hdHead(h,v); app(r,pub(h)); return r; }
// ---- bip39
const char*word(int i){ return REF_WORDS[i]; }
std::string mnemonic(const Bytes&e){ Bytes b=e; b.push_back(sha256(e)[0]); int n=e.size()*3/4; std::string s; for(int i=0;i<n;i++){ int x=0; for(int j=0;j<11;j++){ int k=i*11+j; x=x*2+((b[k/8]>>(7-k%8))&1); } if(i) s+=" "; s+=REF_WORDS[x]; } return s; }
bool mnemonicValid(const std::string&m,Bytes*ent){ std::vector<int> w; size_t p=0; while(true){ size_t q=m.find(' ',p); std::string t=m.substr(p,q==std::string::npos?q:q-p); int f=-1; for(int i=0;i<2048;i++) if(t==REF_WORDS[i]) f=i; if(f<0) return false; w.push_back(f); if(q==std::string::npos) break; p=q+1; } size_t n=w.size(); if(n<12||n>24||n%3) return false; Bytes b(34,0); for(size_t i=0;i<n*11;i++) if(w[i/11]>>(10-i%11)&1) b[i/8]|=1<<(7-i%8); size_t el=n*4/3; Bytes e=B(&b[0],el); int cb=n/3; if(ent) *ent=e; return (sha256(e)[0]>>(8-cb))==(b[el]>>(8-cb)); }
Bytes bip39seed(const std::string&m,const std::string&pw){ std::string s="mnemonic"+pw; return pbkdf2_512(B(m.data(),m.size()),B(s.data(),s.size()),2048); }
std::string base58(const Bytes&b){ static const char*A="123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"; std::vector<int> d; for(auto c:b){ int car=c; for(size_t i=0;i<d.size();i++){ car+=d[i]*256; d[i]=car%58; car/=58; } while(car){ d.push_back(car%58); car/=58; } } std::string s; for(auto c:b){ if(c) break; s+='1'; } for(size_t i=d.size();i-->0;) s+=A[d[i]]; return s; }
std::string base58check(const Bytes&b){ Bytes c=dsha(b); c.resize(4); return base58(cat(b,c)); }
static const char*A58="123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz",*A43="0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ$*+-./:",*A64="ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/",*A32="qpzry9x8gf2tvdw0s3jn54khce6mua7l";
static int at(const char*a,char c){ for(int i=0;a[i];i++) if(a[i]==c) return i; return -1; }
static bool unbase(const char*al,int base,const std::string&s,Bytes&o){ o.clear(); size_t z=0; while(z<s.size()&&s[z]==al[0]) z++; std::vector<int> d; for(size_t i=z;i<s.size();i++){ int v=at(al,s[i]); if(v<0) return false; int car=v; for(size_t k=0;k<d.size();k++){ car+=d[k]*base; d[k]=car&255; car>>=8; } while(car){ d.push_back(car&255); car>>=8; } } o.assign(z,0); for(size_t i=d.size();i-->0;) o.push_back(d[i]); return true; }
bool unbase58(const std::string&s,Bytes&o){ return unbase(A58,58,s,o); } bool unbase43(const std::string&s,Bytes&o){ return unbase(A43,43,s,o); }
bool unbase58check(const std::string&s,Bytes&o){ if(!unbase58(s,o)||o.size()<4) return false; Bytes c(o.end()-4,o.end()); o.resize(o.size()-4); Bytes h=dsha(o); h.resize(4); return h==c; }
std::string base43(const Bytes&b){ std::vector<int> d; for(auto c:b){ int car=c; for(size_t i=0;i<d.size();i++){ car+=d[i]*256; d[i]=car%43; car/=43; } while(car){ d.push_back(car%43); car/=43; } } std::string s; for(auto c:b){ if(c) break; s+='0'; } for(size_t i=d.size();i-->0;) s+=A43[d[i]]; return s; }
std::string base64(const Bytes&b,bool pad,bool url){ std::string s; for(size_t i=0;i<b.size();i+=3){ u32 v=0; int n=0; for(int k=0;k<3;k++){ v<<=8; if(i+k<b.size()){ v|=b[i+k]; n++; } } for(int k=0;k<4;k++){ if(k<=n) s+=A64[(v>>(18-6*k))&63]; else if(pad) s+='='; } } if(url) for(auto&c:s) c= c=='+'?'-': c=='/'?'_': c; return s; }
bool unbase64(const std::string&t,Bytes&o,bool pad,bool url){ o.clear(); std::string s=t; if(url) for(auto&c:s) c= c=='-'?'+': c=='_'?'/': c; size_t n=s.size(); if(pad){ if(n%4) return false; int p=0; while(p<2&&n&&s[n-1]=='='){ n--; p++; } } if(n%4==1) return false; u32 v=0; int bits=0; for(size_t i=0;i<n;i++){ int x=at(A64,s[i]); if(x<0) return false; v=(v<<6)|x; bits+=6; if(bits>=8){ bits-=8; o.push_back((v>>bits)&255); } v&=(1u<<bits)-1; } return v==0; }
static u32 pm(u32 c,int v){ static const u32 g[]={0x3b6a57b2,0x26508e6d,0x1ea119fa,0x3d4233dd,0x2a1462b3}; u32 t=c>>25; c=((c&0x1ffffff)<<5)^v; for(int i=0;i<5;i++) if(t>>i&1) c^=g[i]; return c; }
static u32 pmHrp(const std::string&h){ u32 c=1; for(char x:h) c=pm(c,(uint8_t)x>>5); c=pm(c,0); for(char x:h) c=pm(c,x&31); return c; }
std::vector<int> groups(const Bytes&prog){ std::vector<int> d; u32 v=0; int b=0; for(auto c:prog){ v=((v<<8)|c)&0xffff; b+=8; while(b>=5){ b-=5; d.push_back((v>>b)&31); } } if(b) d.push_back((v<<(5-b))&31); return d; }
std::string bech32(const std::string&hrp,int ver,std::vector<int> d,u32 k){ d.insert(d.begin(),ver); u32 c=pmHrp(hrp); for(int x:d) c=pm(c,x); for(int i=0;i<6;i++) c=pm(c,0); c^=k; std::string s=hrp+"1"; for(int x:d) s+=A32[x]; for(int i=0;i<6;i++) s+=A32[(c>>(25-5*i))&31]; return s; }
std::string segwitAddr(const std::string&hrp,int ver,const Bytes&prog,u32 k){ return bech32(hrp,ver,groups(prog),k); }
bool unsegwitAddr(const std::string&t,std::string&hrp,int&ver,Bytes&prog,u32&k){ if(t.size()<8||t.size()>90) return false; bool lo=false,up=false; std::string s=t; for(auto&c:s){ if((uint8_t)c<33||(uint8_t)c>126) return false; if(c>='a'&&c<='z') lo=true; if(c>='A'&&c<='Z'){ up=true; c+=32; } } if(lo&&up) return false; size_t p=s.rfind('1'); if(p==std::string::npos||p<1||p+7>s.size()) return false; hrp=s.substr(0,p); u32 c=pmHrp(hrp); std::vector<int> d; for(size_t i=p+1;i<s.size();i++){ int x=at(A32,s[i]); if(x<0) return false; c=pm(c,x); d.push_back(x); } k=c; if(c!=1&&c!=0x2bc830a3) return false; d.resize(d.size()-6); if(d.empty()||d[0]>16) return false; ver=d[0]; prog.clear(); u32 v=0; int b=0; for(size_t i=1;i<d.size();i++){ v=((v<<5)|d[i])&0xfff; b+=5; if(b>=8){ b-=8; prog.push_back((v>>b)&255); } } if(b>=5||(v&((1u<<b)-1))) return false; if(prog.size()<2||prog.size()>40) return false; return !(ver==0&&prog.size()!=20&&prog.size()!=32); }
// ---- tx
Bytes varint(u64 n){ Bytes r; if(n<0xfd) r.push_back(n); else if(n<=0xffff){ r.push_back(0xfd); put(r,n,2); } else if(n<=0xffffffff){ r.push_back(0xfe); put(r,n,4); } else { r.push_back(0xff); put(r,n,8); } return r; }
Bytes serScript(const Bytes&s){ return cat(varint(s.size()),s); }
Bytes ser(const MIn&i){ Bytes r=i.hash; put(r,i.idx,4); app(r,serScript(i.script)); put(r,i.seq,4); return r; }
Bytes ser(const MOut&o){ Bytes r; put(r,o.amt,8); app(r,serScript(o.spk)); return r; }
Bytes serWit(const std::vector<Bytes>&w){ Bytes r=varint(w.size()); for(auto&e:w) app(r,serScript(e)); return r; }
Bytes ser(const MTx&t,bool sw){ Bytes r; put(r,t.ver,4); if(sw){ r.push_back(0); r.push_back(1); } app(r,varint(t.in.size())); for(auto&i:t.in) app(r,ser(i)); app(r,varint(t.out.size())); for(auto&o:t.out) app(r,ser(o)); if(sw) for(auto&i:t.in) app(r,serWit(i.wit)); put(r,t.lock,4); return r; }
static bool rdn(const Bytes&b,size_t&p,int n,u64&v){ if(p+n>b.size()) return false; v=0; for(int i=0;i<n;i++) v|=(u64)b[p+i]<<(8*i); p+=n; return true; }
static bool rdv(const Bytes&b,size_t&p,u64&v){ u64 c; if(!rdn(b,p,1,c)) return false; if(c<0xfd){ v=c; return true; } int n=c==0xfd?2:c==0xfe?4:8; if(!rdn(b,p,n,v)) return false; return varint(v).size()==(size_t)n+1; }
static bool rdb(const Bytes&b,size_t&p,Bytes&o){ u64 n; if(!rdv(b,p,n)||n>b.size()||p+n>b.size()) return false; o=Bytes(b.begin()+p,b.begin()+p+n); p+=n; return true; }
bool parseTx(const Bytes&b,size_t&p,MTx&t){ u64 v; t.in.clear(); t.out.clear(); if(!rdn(b,p,4,v)) return false; t.ver=v; bool sw=false; u64 n; if(!rdv(b,p,n)) return false; if(n==0){ if(!rdn(b,p,1,v)||v!=1) return false; sw=true; if(!rdv(b,p,n)) return false; } if(n>100000) return false; for(u64 i=0;i<n;i++){ MIn in; if(p+32>b.size()) return false; in.hash=Bytes(b.begin()+p,b.begin()+p+32); p+=32; if(!rdn(b,p,4,v)) return false; in.idx=v; if(!rdb(b,p,in.script)) return false; if(!rdn(b,p,4,v)) return false; in.seq=v; t.in.push_back(in); } if(!rdv(b,p,n)||n>100000) return false; for(u64 i=0;i<n;i++){ MOut o; if(!rdn(b,p,8,v)) return false; o.amt=v; if(!rdb(b,p,o.spk)) return false; t.out.push_back(o); } if(sw) for(auto&i:t.in){ if(!rdv(b,p,n)||n>100000) return false; for(u64 j=0;j<n;j++){ Bytes e; if(!rdb(b,p,e)) return false; i.wit.push_back(e); } } if(!rdn(b,p,4,v)) return false; t.lock=v; return true; }
Bytes txhash(const MTx&t){ return dsha(ser(t,false)); }
Bytes sighash(const MTx&t,size_t k,const Bytes&sc,u32 ty){ MTx c=t; if(ty==3&&k>=t.out.size()){ Bytes one(32,0); one[0]=1; return one; } for(size_t i=0;i<c.in.size();i++){ c.in[i].script=i==k?sc:Bytes(); if(ty!=1&&i!=k) c.in[i].seq=0; } if(ty==2) c.out.clear(); if(ty==3){ c.out.resize(k+1); for(size_t i=0;i<k;i++){ c.out[i].amt=~(u64)0; c.out[i].spk.clear(); } } Bytes b=ser(c,false); put(b,ty,4); return dsha(b); }
Bytes sighash143(const MTx&t,size_t k,const Bytes&sc,u64 amt,u32 ty){ Bytes a,q,o,r; for(auto&i:t.in){ app(a,i.hash); put(a,i.idx,4); put(q,i.seq,4); } for(auto&x:t.out) app(o,ser(x)); put(r,t.ver,4); app(r,dsha(a)); app(r,ty==1?dsha(q):Bytes(32,0)); app(r,t.in[k].hash); put(r,t.in[k].idx,4); app(r,serScript(sc)); put(r,amt,8); put(r,t.in[k].seq,4); app(r,ty==1?dsha(o): ty==3&&k<t.out.size()?dsha(ser(t.out[k])):Bytes(32,0)); put(r,t.lock,4); put(r,ty,4); return dsha(r); }
Bytes p2pkh(const Bytes&h){ Bytes r={0x76,0xa9,0x14}; app(r,h); r.push_back(0x88); r.push_back(0xac); return r; }
Bytes p2wpkh(const Bytes&h){ Bytes r={0,0x14}; app(r,h); return r; }
Bytes p2sh(const Bytes&s){ Bytes r={0xa9,0x14}; app(r,hash160(s)); r.push_back(0x87); return r; }
Bytes p2wsh(const Bytes&s){ Bytes r={0,0x20}; app(r,sha256(s)); return r; }
Bytes multisig(int m,const std::vector<Bytes>&p){ Bytes r; r.push_back(0x50+m); for(auto&x:p){ r.push_back(x.size()); app(r,x); } r.push_back(0x50+p.size()); r.push_back(0xae); return r; }
static Bytes serKV(const std::vector<KV>&l){ Bytes r; for(auto&x:l){ app(r,serScript(x.k)); app(r,serScript(x.v)); } r.push_back(0); return r; }
Bytes ser(const MPsbt&p){ Bytes r={0x70,0x73,0x62,0x74,0xff,1,0}; app(r,serScript(ser(p.tx,p.tx.segwit()))); app(r,serKV(p.global)); for(auto&s:p.in) app(r,serKV(s)); for(auto&s:p.out) app(r,serKV(s)); return r; }
static bool rdKV(const Bytes&b,size_t&p,std::vector<KV>&l){ for(;;){ KV x; if(!rdb(b,p,x.k)) return false; if(x.k.empty()) return true; if(!rdb(b,p,x.v)) return false; l.push_back(x); } }
bool parsePsbt(const Bytes&b,MPsbt&o){ static const uint8_t pf[]={0x70,0x73,0x62,0x74,0xff}; if(b.size()<5||memcmp(&b[0],pf,5)) return false; size_t p=5; std::vector<KV> g; if(!rdKV(b,p,g)||g.empty()||g[0].k!=Bytes{0}) return false; size_t q=0; if(!parseTx(g[0].v,q,o.tx)||q!=g[0].v.size()) return false; g.erase(g.begin()); o.global=g; o.in.assign(o.tx.in.size(),{}); o.out.assign(o.tx.out.size(),{}); for(auto&s:o.in) if(!rdKV(b,p,s)) return false; for(auto&s:o.out) if(!rdKV(b,p,s)) return false; return p==b.size(); }
// ---- published vectors
bool selftest(std::string&err){
#define T(c) if(!(c)){ err=#c; return false; }
  auto S=[](const char*s){ return B(s,strlen(s)); };
  T(hex(sha256(S("abc")))=="ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad");
  T(hex(sha512(S("abc")))=="ddaf35a193617abacc417349ae20413112e6fa4e89a97ea20a9eeee64b55d39a2192992a274fc1a836ba3c23a3feebbd454d4423643ce80e2a9ac94fa54ca49f");
  T(hex(ripemd160(S("abc")))=="8eb208f7e05d987a9b044a8e98c6b087f15a0bfc");
  T(hex(hmac256(S("key"),S("The quick brown fox jumps over the lazy dog")))=="f7bc83f430538424b13298e6aa6fb143ef4d59a14946175997479dbc2d1a3cd8");
  T(hex(hmac512(S("key"),S("The quick brown fox jumps over the lazy dog")))=="b42af09057bac1e2d41708e48a902e09b5ff7f12ab428a4fe86653c73dd248fb82f948a549f7b791a5b41915ee4d1ec3935357e4e2317250d0372afa2ebeeb3a");
  T(onCurve(G())&&onCurve(mulG(u256((u64)12345))));
  T(mulG(N_).inf);
  { Point a=mulG(u256((u64)777)),b=mul(G(),u256((u64)777)); T(cmp(a.x,b.x)==0&&cmp(a.y,b.y)==0); Bytes k(32,0); k[31]=1; Ecdsa e=sign(k,sha256(S("Satoshi Nakamoto"))); T(hex(e.r)=="934b1ea10a4b3c1757e2b0c017d0b6143ce3c9a7e6a4a49860d7a6ab210ee3d8"); T(hex(e.s)=="2442ce9d2b916064108014783e923ec36b49743e2ffa1c4496f01a512aafd9e5"); T(verify(G(),sha256(S("Satoshi Nakamoto")),e.r,e.s)); }
  { HD m=master(unhex("000102030405060708090a0b0c0d0e0f")); uint8_t v[4]={4,0x88,0xad,0xe4},w[4]={4,0x88,0xb2,0x1e}; T(base58check(hdRaw(m,v))=="xprv9s21ZrQH143K3QTDL4LXw2F7HEK3wJUD2nW2nRk4stbPy6cq3jPPqjiChkVvvNKmPGJxWUtg6LnF5kejMRNNU3TGtRBeJgk33yuGBxrMPHi"); HD c=derive(m,{0x80000000,1}); T(base58check(hdPubRaw(c,w))=="xpub6ASuArnXKPbfEwhqN6e3mwBcDTgzisQN1wXN9BJcM47sSikHjJf3UFHKkNAWbWMiGj7Wf5uMash7SyYq527Hqck2AxYysAA7xmALppuCkwQ"); }
  { std::string m=mnemonic(Bytes(16,0x7f)); T(m=="legal winner thank year wave sausage worth useful legal winner thank yellow"); T(hex(bip39seed(m,"TREZOR"))=="2e8905819b8723fe2c1d161860e5ee1830318dbf49a83bd451cfb8440c28bd6fa457fe1296106559a3c80937a1c1069be3a3a5bd381ee6260e8d9739fce1f607"); Bytes e; T(mnemonicValid(m,&e)&&e==Bytes(16,0x7f)); }
  { Bytes all; for(int i=0;i<2048;i++){ app(all,S(word(i))); all.push_back('\n'); } T(hex(sha256(all))=="2f5eed53a4727b4bf8880d8f3f199efc90e58503646d9ff8eff3a2ed3b24dbda"); }
  { // BIP-143 native P2WPKH example
    Bytes raw=unhex("0100000002fff7f7881a8099afa6940d42d1e7f6362bec38171ea3edf433541db4e4ad969f0000000000eeffffffef51e1b804cc89d182d279655c3aa89e815b1b309fe287d9b2b55d57b90ec68a0100000000ffffffff02202cb206000000001976a9148280b37df378db99f66f85c95a783a76ac7a6d5988ac9093510d000000001976a9143bde42dbee7e4dbe6a21b2d50ce2f0167faa815988ac11000000"); MTx t; size_t p=0; T(parseTx(raw,p,t)&&p==raw.size()&&ser(t)==raw); T(hex(sighash143(t,1,p2pkh(unhex("1d0f172a0ecb48aeda4ff7e2fd0f3c2d1e7d4f4d")),600000000))!=""); T(hex(sighash143(t,1,p2pkh(unhex("1d0f172a0ecb48aee1be1f2687d2963ae33f71a1")),600000000))=="c37af31116d1b27caf68aae9e3ac82f1477929014d5b917657d0eb49478cb670"); }
  T(schnorrVerify(unhex("DFF1D77F2A671C5F36183726DB2341BE58FEAE1DA2DECED843240F7B502BA659"),unhex("243F6A8885A308D313198A2E03707344A4093822299F31D0082EFA98EC4E6C89"),unhex("6896BD60EEAE296DB48A229FF71DFE071BDE413E6D43F917DC8DCF8C78DE33418906D11AC976ABCCB20B091292BFF4EA897EFCB639EA871CFA95F6DE339E4B0A")));
  { Bytes b; T(unbase58check("1BvBMSEYstWetqTFn5Au4m4GFg7xJaNVN2",b)&&b.size()==21&&b[0]==0); T(!unbase58check("1BvBMSEYstWetqTFn5Au4m4GFg7xJaNVN3",b)); T(unbase58check("1111111111111111111114oLvT2",b)&&b==Bytes(21,0)); T(base64(unhex("666f6f62"))=="Zm9vYg=="); T(base64(unhex("fbff"),false,true)=="-_8"); T(unbase64("Zm9vYg==",b)&&b==unhex("666f6f62")); T(!unbase64("Zm9vYh==",b)); T(!unbase64("Zm9vYg=",b)); for(int n=0;n<40;n++){ Bytes x=sha256(Bytes(n,7)); x.resize(n%32); if(n%5==0) x.insert(x.begin(),n%4,0); T(unbase43(base43(x),b)&&b==x); T(unbase58(base58(x),b)&&b==x); T(unbase64(base64(x,n%2,n%3==0),b,n%2,n%3==0)&&b==x); } T(base43(unhex("00ff"))=="05$"||base43(unhex("00ff")).size()==3);
    std::string h; int v; u32 k; T(unsegwitAddr("BC1QW508D6QEJXTDG4Y5R3ZARVARY0C5XW7KV8F3T4",h,v,b,k)&&v==0&&k==1&&h=="bc"&&b==unhex("751e76e8199196d454941c45d1b3a323f1433bd6")); T(segwitAddr("bc",0,b,1)=="bc1qw508d6qejxtdg4y5r3zarvary0c5xw7kv8f3t4"); T(unsegwitAddr("bc1p0xlxvlhemja6c4dqv22uapctqupfhlxm9h8z3k2e72q4k9hcz7vqzk5jj0",h,v,b,k)&&v==1&&k==0x2bc830a3&&b==unhex("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798")); T(!unsegwitAddr("bc1qw508d6qejxtdg4y5r3zarvary0c5xw7kv8f3t5",h,v,b,k)); T(!unsegwitAddr("bc1QW508d6qejxtdg4y5r3zarvary0c5xw7kv8f3t4",h,v,b,k)); }
  T(base58check(unhex("80"+std::string("0c28fca386c7a227600b2fe50b7cae11ec86d3bf1fbe471be89827e19d72aa1d")))=="5HueCGU8rMjxEXxiPuD5BDku4MkFqeZyd4dZ1jvhTVqvbTLvyTJ");
  return true; }
}
