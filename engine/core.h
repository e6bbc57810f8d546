// mbeai: abstract interpreter over LLVM IR. Abstract domains and value identities.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <cfloat>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_map>
#include <algorithm>
#include <functional>

typedef uint32_t u32; typedef uint64_t u64; typedef int64_t i64; typedef uint8_t u8;
typedef __int128 i128;

template<class T> struct Ref {
  T*p; Ref():p(nullptr){} Ref(T*q):p(q){ if(p) ++p->rc; } Ref(const Ref&o):p(o.p){ if(p) ++p->rc; }
  Ref(Ref&&o) noexcept :p(o.p){ o.p=nullptr; }
  ~Ref(){ if(p && --p->rc==0) T::dispose(p); }
  Ref& operator=(const Ref&o){ if(o.p) ++o.p->rc; T*q=p; p=o.p; if(q && --q->rc==0) T::dispose(q); return *this; }
  Ref& operator=(Ref&&o) noexcept { if(this!=&o){ T*q=p; p=o.p; o.p=nullptr; if(q && --q->rc==0) T::dispose(q);} return *this; }
  T* operator->() const {return p;} T& operator*() const {return *p;} explicit operator bool() const {return p!=nullptr;}
  bool operator==(const Ref&o) const {return p==o.p;} bool operator!=(const Ref&o) const {return p!=o.p;}
};

// ---------- value numbering: a vid names one concrete value of the run ----------
enum Op : u32 { N_FRESH=1, N_CI, N_CF, N_BITS, N_ITE, N_PATH, N_PSEL, N_OR, N_SYM, N_LOOK, N_CAST, N_EXT, N_MODEL, N_VEC, N_PTR, N_NULL, N_BIN=64 };
struct Node { u32 op,a,b,c; };
struct NodeTab {
  std::vector<Node> n; std::vector<u32> h; u32 mask;
  NodeTab(){ n.push_back({0,0,0,0}); h.assign(1u<<16,0); mask=(1u<<16)-1; }
  static u32 hs(u32 op,u32 a,u32 b,u32 c){ u64 x=op*0x9E3779B97F4A7C15ull ^ a*0xC2B2AE3D27D4EB4Full ^ b*0x165667B19E3779F9ull ^ c*0xD6E8FEB86659FD93ull; x^=x>>32; x*=0x9FB21C651E98DF25ull; x^=x>>29; return (u32)x; }
  void grow(){ u32 nm=(mask+1)*2-1; std::vector<u32> nh(nm+1,0); for(u32 i=1;i<n.size();i++){ u32 k=hs(n[i].op,n[i].a,n[i].b,n[i].c)&nm; while(nh[k]) k=(k+1)&nm; nh[k]=i;} h.swap(nh); mask=nm; }
  u32 get(u32 op,u32 a=0,u32 b=0,u32 c=0){
    u32 k=hs(op,a,b,c)&mask; while(h[k]){ Node&x=n[h[k]]; if(x.op==op&&x.a==a&&x.b==b&&x.c==c) return h[k]; k=(k+1)&mask; }
    n.push_back({op,a,b,c}); h[k]=(u32)n.size()-1; u32 r=h[k]; if(n.size()*2>mask) grow(); return r; }
  u32 fresh(){ static u32 ctr=0; return get(N_FRESH,++ctr); }
};
extern NodeTab NT;

// ---------- hash-consed u32 vectors ----------
struct VecTab {
  std::vector<std::vector<u32>> v; std::unordered_map<u64,std::vector<u32>> m;
  u32 get(const std::vector<u32>&x){ u64 h=1469598103934665603ull; for(u32 e:x){h^=e;h*=1099511628211ull; h^=h>>31;} auto&b=m[h]; for(u32 i:b) if(v[i]==x) return i; v.push_back(x); b.push_back((u32)v.size()-1); return (u32)v.size()-1; }
  VecTab(){ get({}); }
};
extern VecTab DEPS, SETS, IDV;   // dependency sets, GF(2) symbol sets, misc
u32 depUnion(u32 a,u32 b);

// ---------- GF(2) affine forms: form = 2*set + const ; FU = unknown ----------
const u32 FU=0xffffffffu;
struct Sym { std::string name; u32 dep; };
extern std::vector<Sym> SYMS;
u32 newSym(const std::string&name,u32 dep,bool input);
u32 symForVid(u32 vid,u32 dep);             // opaque bit symbol for an i1 value
inline u32 fSym(u32 s){ return 2*SETS.get({s}); }
u32 fXor(u32 a,u32 b); u32 fAnd(u32 a,u32 b); u32 fIte(u32 c,u32 t,u32 f); u32 fDep(u32 f);
inline bool fConst(u32 f){ return f<2; }

// ---------- abstract values ----------
enum Kind : u8 { INT, FLT, PTR, UNDEF, VEC };
struct Val; typedef Ref<Val> V;
struct Bits { int rc=0; std::vector<u32> f; static void dispose(Bits*b){ delete b; } };
// provenance of a value, used to push branch decisions back onto the values they were computed from
enum PK : u8 { P_ICMP, P_FCMP, P_ITE, P_BIN, P_CASTI, P_CASTF, P_FABS, P_FNEG };
struct Prov { int rc=0; PK kind; u32 op=0; V a,b,c; static void dispose(Prov*c); };
struct Tgt { u32 obj; i64 lo,hi,step; i64 blo,bhi; i64 ilo,ihi; }; // bounds: [blo,bhi) arithmetic bound, [ilo,ihi) immediate
struct Val {
  int rc=0; Kind k=INT; u8 nan=0; u32 w=0; u32 vid=0, dep=0; u32 und=0; /* form under which the value was never written */
  i64 lo=0,hi=0; double flo=0,fhi=0;
  Ref<Bits> bits; Ref<Prov> pv; V alt;       // alt: float behind an int view / pointer behind an int view / bool behind a zext
  std::vector<Tgt> tg; std::vector<V> el;
  static void dispose(Val*);
  void* operator new(size_t); void operator delete(void*);
};
inline i64 sMin(u32 w){ return w>=64?INT64_MIN:-(i64(1)<<(w-1)); }
inline i64 sMax(u32 w){ return w>=64?INT64_MAX:(i64(1)<<(w-1))-1; }
inline u64 uMask(u32 w){ return w>=64?~0ull:((1ull<<w)-1); }
inline i64 sx(u64 x,u32 w){ if(w>=64) return (i64)x; u64 m=1ull<<(w-1); x&=uMask(w); return (i64)((x^m)-m); }
inline bool single(const Val*v){ if(v->und) return false; if(v->k==INT) return v->lo==v->hi; if(v->k==FLT) return !v->nan && v->flo==v->fhi && !(v->flo==0 && NT.n[v->vid].op!=N_CF); return false; }
inline bool single(const V&v){ return single(v.p); }

V mkInt(u32 w,i64 x); V mkIntR(u32 w,i64 lo,i64 hi,u32 vid,u32 dep);
V mkBits(u32 w,std::vector<u32> f,i64 lo,i64 hi,u32 vid,u32 dep); // normalises
V mkF(u32 w,double x); V mkFR(u32 w,double lo,double hi,bool nan,u32 vid,u32 dep);
V mkUndef(u32 w); V mkPtr(const std::vector<Tgt>&t,u32 dep); V mkNull();
V mkVec(const std::vector<V>&e);
V mkI1(u32 vid,u32 dep); V mkBool(bool);
std::vector<u32> formsOf(const Val*v);
bool sameVal(const V&a,const V&b);
V joinVal(const V&a,const V&b,u32 condForm,u32 condDep,const V*condV=nullptr); // ITE(cond,a,b)
V setProv(V r,PK k,u32 op,const V&a,const V&b=V(),const V&c=V());
V notV(const V&a);
V intBin(u32 opc,const V&a,const V&b,bool&ovS,bool&ovU,bool&div0,bool&sdivov,bool&badshift); // opc: llvm opcode
V fltBin(u32 opc,const V&a,const V&b);
V icmpV(u32 pred,const V&a,const V&b); V fcmpV(u32 pred,const V&a,const V&b);
V narrowInt(const V&v,i64 lo,i64 hi); V narrowFlt(const V&v,double lo,double hi,bool nan);
std::string showVal(const V&v); std::string showVid(u32 vid,int depth);
double fround_(u32 w,double x);
