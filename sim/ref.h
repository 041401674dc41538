// Independent reference model (shares no code with /repo/src).
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include <string>
#include <vector>
namespace ref {
typedef std::vector<uint8_t> Bytes;
typedef uint64_t u64; typedef uint32_t u32;
inline Bytes B(const void*p,size_t n){ return Bytes((const uint8_t*)p,(const uint8_t*)p+n); }
inline Bytes cat(const Bytes&a,const Bytes&b){ Bytes r=a; r.insert(r.end(),b.begin(),b.end()); return r; }
inline void app(Bytes&a,const Bytes&b){ a.insert(a.end(),b.begin(),b.end()); }
inline void put(Bytes&a,u64 v,int n){ for(int i=0;i<n;i++) a.push_back((v>>(8*i))&0xff); }
std::string hex(const Bytes&); Bytes unhex(const std::string&);

Bytes sha256(const Bytes&); Bytes sha512(const Bytes&); Bytes ripemd160(const Bytes&);
Bytes dsha(const Bytes&); Bytes hash160(const Bytes&);
Bytes hmac256(const Bytes&k,const Bytes&m); Bytes hmac512(const Bytes&k,const Bytes&m);
Bytes tagged(const std::string&tag,const Bytes&m);
Bytes pbkdf2_512(const Bytes&pw,const Bytes&salt,int rounds,int len=64);

struct U256{ u64 v[4]; };
U256 u256(const uint8_t*be); U256 u256(u64); Bytes be(const U256&);
bool isZero(const U256&); int cmp(const U256&,const U256&);
extern const U256 P_,N_;
U256 modN(const U256&); U256 addN(const U256&,const U256&); U256 mulN(const U256&,const U256&); U256 negN(const U256&); U256 invN(const U256&);
struct Point{ bool inf; U256 x,y; };
Point G(); Point mulG(const U256&); Point mul(const Point&,const U256&); Point add(const Point&,const Point&); Point neg(const Point&);
bool lift(const U256&x,bool odd,Point&out); bool onCurve(const Point&); bool odd(const Point&);
Bytes sec(const Point&,bool compressed); bool parseSec(const Bytes&,Point&);

struct Ecdsa{ Bytes r,s; int recid; };
Ecdsa sign(const Bytes&key,const Bytes&hash); // RFC6979, low-S
bool verify(const Point&,const Bytes&hash,const Bytes&r,const Bytes&s);
Bytes der(const Bytes&r,const Bytes&s); bool under(const Bytes&,Bytes&r,Bytes&s); // strict DER
bool schnorrVerify(const Bytes&xonly,const Bytes&msg,const Bytes&sig64);

struct Net{ const char*name; uint8_t p2pkh,p2sh,wif; const char*hrp; uint8_t xprv[4],yprv[4],zprv[4],Yprv[4],Zprv[4],xpub[4],ypub[4],zpub[4],Ypub[4],Zpub[4]; };
struct HD{ Bytes key,cc; int depth; Bytes pfp; u32 child; }; // private
HD master(const Bytes&seed); HD ckd(const HD&,u32 idx); HD derive(const HD&,const std::vector<u32>&);
Bytes fingerprint(const HD&);
Bytes hdRaw(const HD&,const uint8_t ver[4]); Bytes hdPubRaw(const HD&,const uint8_t ver[4]);

std::string mnemonic(const Bytes&entropy); bool mnemonicValid(const std::string&,Bytes*entropy); 
const char*word(int i);
Bytes bip39seed(const std::string&mn,const std::string&pw);

std::string base58(const Bytes&); std::string base58check(const Bytes&);
bool unbase58(const std::string&,Bytes&); bool unbase58check(const std::string&,Bytes&); // exact: every character in the alphabet
std::string base43(const Bytes&); bool unbase43(const std::string&,Bytes&);
std::string base64(const Bytes&,bool pad=true,bool url=false); bool unbase64(const std::string&,Bytes&,bool pad=true,bool url=false); // strict
std::vector<int> groups(const Bytes&); std::string bech32(const std::string&hrp,int ver,std::vector<int> groups,u32 constant);
std::string segwitAddr(const std::string&hrp,int ver,const Bytes&prog,u32 constant); // bech32: 1, bech32m: 0x2bc830a3
bool unsegwitAddr(const std::string&,std::string&hrp,int&ver,Bytes&prog,u32&constant); // BIP173/BIP350 except that the constant is reported

Bytes varint(u64);
struct MIn{ Bytes hash; u32 idx; Bytes script; u32 seq; std::vector<Bytes> wit; };
struct MOut{ u64 amt; Bytes spk; };
struct MTx{ u32 ver; std::vector<MIn> in; std::vector<MOut> out; u32 lock; bool segwit()const{ for(auto&i:in) if(i.wit.size()) return true; return false; } };
Bytes ser(const MIn&); Bytes ser(const MOut&); Bytes ser(const MTx&,bool segwit); inline Bytes ser(const MTx&t){ return ser(t,t.segwit()); }
Bytes serWit(const std::vector<Bytes>&); Bytes serScript(const Bytes&);
bool parseTx(const Bytes&,size_t&pos,MTx&); // strict
Bytes txhash(const MTx&);
Bytes sighash(const MTx&,size_t i,const Bytes&scriptCode,u32 type=1);
Bytes sighash143(const MTx&,size_t i,const Bytes&scriptCode,u64 amount,u32 type=1);
Bytes p2pkh(const Bytes&h20); Bytes p2wpkh(const Bytes&h20); Bytes p2sh(const Bytes&script); Bytes p2wsh(const Bytes&script);
Bytes multisig(int m,const std::vector<Bytes>&pubs);

struct KV{ Bytes k,v; };
struct MPsbt{ MTx tx; std::vector<KV> global; std::vector<std::vector<KV>> in,out; };
Bytes ser(const MPsbt&); bool parsePsbt(const Bytes&,MPsbt&);
bool selftest(std::string&err);
}
