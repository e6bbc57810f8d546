#include "core.h"
#include "llvm/IR/Instruction.h"
#include "llvm/IR/InstrTypes.h"
using llvm::Instruction; using llvm::CmpInst;

NodeTab NT; VecTab DEPS, SETS, IDV; std::vector<Sym> SYMS; std::vector<u32> SYMVID;

u32 depUnion(u32 a,u32 b){
  if(a==b||b==0) return a; if(a==0) return b; if(a>b) std::swap(a,b);
  static std::unordered_map<u64,u32> memo; u64 k=((u64)a<<32)|b; auto it=memo.find(k); if(it!=memo.end()) return it->second;
  std::vector<u32> r; std::set_union(DEPS.v[a].begin(),DEPS.v[a].end(),DEPS.v[b].begin(),DEPS.v[b].end(),std::back_inserter(r));
  return memo[k]=DEPS.get(r);
}
u32 newSym(const std::string&name,u32 dep,bool input){ u32 id=SYMS.size(); SYMS.push_back({name,dep}); SYMVID.push_back(0); if(input) SYMS[id].dep=DEPS.get({id}); return id; }
u32 symForVid(u32 vid,u32 dep){ static std::unordered_map<u32,u32> m; auto it=m.find(vid); if(it!=m.end()) return it->second; u32 s=newSym("",dep,false); SYMVID[s]=vid; m[vid]=s; return s; }
static u32 setXor(u32 a,u32 b){
  if(a==0) return b; if(b==0) return a; if(a==b) return 0; if(a>b) std::swap(a,b);
  static std::unordered_map<u64,u32> memo; u64 k=((u64)a<<32)|b; auto it=memo.find(k); if(it!=memo.end()) return it->second;
  std::vector<u32> r; std::set_symmetric_difference(SETS.v[a].begin(),SETS.v[a].end(),SETS.v[b].begin(),SETS.v[b].end(),std::back_inserter(r));
  return memo[k]=SETS.get(r);
}
u32 fXor(u32 a,u32 b){ if(a==FU||b==FU) return FU; return 2*setXor(a>>1,b>>1)+((a^b)&1); }
u32 fDep(u32 f){ if(f==FU||f<2) return 0; static std::unordered_map<u32,u32> memo; u32 s=f>>1; auto it=memo.find(s); if(it!=memo.end()) return it->second; u32 d=0; for(u32 x:SETS.v[s]) d=depUnion(d,SYMS[x].dep); return memo[s]=d; }
u32 fAnd(u32 a,u32 b){
  if(a==0||b==0) return 0; if(a==1) return b; if(b==1) return a; if(a==FU||b==FU) return FU; if(a==b) return a; if(a==(b^1)) return 0;
  u32 A=a&~1u,B=b&~1u,ca=a&1,cb=b&1; u32 AB;
  if(A==B) AB=A; else { if(A>B){ std::swap(A,B); std::swap(ca,cb);} AB=fSym(symForVid(NT.get(N_BITS+1000,A,B),depUnion(fDep(A),fDep(B)))); }
  u32 r=AB; if(ca) r=fXor(r,B); if(cb) r=fXor(r,A); if(ca&&cb) r^=1; return r;
}
u32 fIte(u32 c,u32 t,u32 f){ if(t==f) return t; if(c==1) return t; if(c==0) return f; if(t==FU||f==FU||c==FU) return FU; return fXor(f,fAnd(c,fXor(t,f))); }

// pool
static std::vector<void*> pool;
void* Val::operator new(size_t n){ if(!pool.empty()){ void*p=pool.back(); pool.pop_back(); return p;} return ::operator new(n); }
void Val::operator delete(void*p){ pool.push_back(p); }
void Val::dispose(Val*v){ delete v; }
void Prov::dispose(Prov*c){ delete c; }
V setProv(V r,PK k,u32 op,const V&a,const V&b,const V&c){ if(single(r)) return r; if(r->rc>1){ Val*n=new Val(*r.p); n->rc=0; r=V(n);} Prov*q=new Prov; q->kind=k;q->op=op;q->a=a;q->b=b;q->c=c; r->pv=Ref<Prov>(q); return r; }

V mkInt(u32 w,i64 x){ x=sx((u64)x,w); Val*v=new Val; v->k=INT; v->w=w; v->lo=v->hi=x; u64 u=(u64)x&uMask(w); v->vid=NT.get(N_CI,w,(u32)u,(u32)(u>>32)); return V(v); }
V mkBool(bool b){ return mkInt(1,b?-1:0); }
V mkIntR(u32 w,i64 lo,i64 hi,u32 vid,u32 dep){ if(lo<sMin(w)) lo=sMin(w); if(hi>sMax(w)) hi=sMax(w); if(lo==hi) return mkInt(w,lo); Val*v=new Val; v->k=INT; v->w=w; v->lo=lo; v->hi=hi; v->vid=vid; v->dep=dep; return V(v); }
std::vector<u32> formsOf(const Val*v){
  u32 w=v->w; if(v->bits) return v->bits->f; std::vector<u32> f(w,FU);
  if(v->lo==v->hi){ for(u32 i=0;i<w;i++) f[i]=((u64)v->lo>>i)&1; return f; }
  if(v->lo>=0){ u64 h=(u64)v->hi; for(u32 i=0;i<w;i++) if((h>>i)==0) f[i]=0; }
  return f;
}
V mkBits(u32 w,std::vector<u32> f,i64 lo,i64 hi,u32 vid,u32 dep){
  bool allc=true,allk=true,any=false; u64 mn=0,mx=0;
  if(lo>=0){ u64 h=(u64)hi; for(u32 i=0;i<w;i++) if((h>>i)==0) f[i]=0; }
  for(u32 i=0;i<w;i++){ u32 x=f[i]; if(x==FU){allk=false;allc=false; mx|=1ull<<i;} else if(x<2){ if(x){mn|=1ull<<i;mx|=1ull<<i;} any=true; } else {allc=false;any=true;mx|=1ull<<i;} }
  if(allc) return mkInt(w,(i64)mn);
  u32 sb=f[w-1];
  if(sb==0){ if((i64)mn>lo) lo=(i64)mn; if((i64)mx<hi) hi=(i64)mx; }
  else if(sb==1){ i64 a=sx(mn,w),b=sx(mx,w); if(a>lo) lo=a; if(b<hi) hi=b; }
  if(lo>hi){ lo=sMin(w);hi=sMax(w);} // contradictory: infeasible, stay sound
  if(lo==hi) return mkInt(w,lo);
  if(allk){ u32 d=0; for(u32 x:f) d=depUnion(d,fDep(x)); vid=NT.get(N_BITS,IDV.get(f),w); dep=d; }
  V r=mkIntR(w,lo,hi,vid,dep); if(any){ Bits*b=new Bits; b->f.swap(f); r->bits=Ref<Bits>(b);} return r;
}
static u32 cfVid(u32 w,double x){ u64 u; if(w==32){ float g=(float)x; u32 t; memcpy(&t,&g,4); u=t; } else memcpy(&u,&x,8); return NT.get(N_CF,w,(u32)u,(u32)(u>>32)); }
V mkF(u32 w,double x){ Val*v=new Val; v->k=FLT; v->w=w; if(std::isnan(x)){ v->nan=1; v->flo=1;v->fhi=0; v->vid=NT.get(N_CF,w,0x7fc00000,1);} else { v->flo=v->fhi=x; v->vid=cfVid(w,x);} return V(v); }
V mkFR(u32 w,double lo,double hi,bool nan,u32 vid,u32 dep){ if(lo==hi&&!nan&&lo!=0) return mkF(w,lo); Val*v=new Val; v->k=FLT; v->w=w; v->flo=lo;v->fhi=hi;v->nan=nan; v->vid=vid; v->dep=dep; return V(v); }
V mkUndef(u32 w){ Val*v=new Val; v->k=UNDEF; v->w=w; v->vid=NT.fresh(); return V(v); }
V mkPtr(const std::vector<Tgt>&t,u32 dep){ Val*v=new Val; v->k=PTR; v->w=64; v->tg=t; v->dep=dep; std::vector<u32> h; bool ex=true; for(auto&x:t){ h.push_back(x.obj); h.push_back((u32)x.lo); if(x.lo!=x.hi) ex=false; } v->vid= (ex&&t.size()==1)?NT.get(N_PTR,IDV.get(h)):NT.fresh(); return V(v); }
V mkNull(){ return mkPtr({{0,0,0,1,INT64_MIN,INT64_MAX,INT64_MIN,INT64_MAX}},0); }
V mkVec(const std::vector<V>&e){ Val*v=new Val; v->k=VEC; v->w=0; v->el=e; for(auto&x:e){ v->w+=x->w; v->dep=depUnion(v->dep,x->dep);} std::vector<u32> h; for(auto&x:e) h.push_back(x->vid); v->vid=NT.get(N_VEC,IDV.get(h)); return V(v); }
V mkI1(u32 vid,u32 dep){ return mkBits(1,{fSym(symForVid(vid,dep))},-1,0,vid,dep); }
bool sameVal(const V&a,const V&b){
  if(a==b) return true; if(a->k==UNDEF||b->k==UNDEF||a->und!=b->und) return false;
  if(a->k==VEC&&b->k==VEC){ if(a->el.size()!=b->el.size()) return false; for(size_t i=0;i<a->el.size();i++) if(!sameVal(a->el[i],b->el[i])) return false; return true; }
  return a->k==b->k && a->w==b->w && a->vid==b->vid;
}
static i64 igcd(i64 a,i64 b){ a=std::llabs(a);b=std::llabs(b); while(b){i64 t=a%b;a=b;b=t;} return a; }
static V joinVal0(const V&a,const V&b,u32 c,u32 cdep,const V*condV){
  if(a==b) return a; if(!a||!b) return V();
  if(a->k==UNDEF) return a; if(b->k==UNDEF) return b;
  if(a->k!=b->k||a->w!=b->w){ u32 w=std::max(a->w,b->w); return mkIntR(w>64?64:w,sMin(w>64?64:w),sMax(w>64?64:w),NT.fresh(),depUnion(cdep,depUnion(a->dep,b->dep))); }
  u32 d=a->vid==b->vid?depUnion(a->dep,b->dep):depUnion(cdep,depUnion(a->dep,b->dep));
  if(a->k==INT){
    i64 lo=std::min(a->lo,b->lo),hi=std::max(a->hi,b->hi); u32 vid=a->vid==b->vid?a->vid:NT.get(N_ITE,c,a->vid,b->vid); V r;
    if(a->vid==b->vid && a->bits && b->bits && a->bits->f==b->bits->f){ r=mkBits(a->w,a->bits->f,lo,hi,vid,d); }
    else if(a->bits||b->bits||(single(a)&&single(b))){ auto fa=formsOf(a.p),fb=formsOf(b.p); for(size_t i=0;i<fa.size();i++) fa[i]=fIte(c,fa[i],fb[i]); r=mkBits(a->w,fa,lo,hi,vid,d); }
    else r=mkIntR(a->w,lo,hi,vid,d);
    if(a->alt&&b->alt&&a->alt->k==b->alt->k&&!single(r)){ if(r.p->rc>1){ Val*n=new Val(*r.p); n->rc=0; r=V(n);} r->alt=joinVal(a->alt,b->alt,c,cdep);}
    if(condV&&*condV&&a->vid!=b->vid&&!single(r)&&(single(a)||single(b)||a->pv||b->pv)) r=setProv(r,P_ITE,0,*condV,a,b);
    return r;
  }
  if(a->k==FLT){
    bool an=a->flo>a->fhi,bn=b->flo>b->fhi; double lo=an?b->flo:bn?a->flo:std::min(a->flo,b->flo),hi=an?b->fhi:bn?a->fhi:std::max(a->fhi,b->fhi);
    return mkFR(a->w,lo,hi,a->nan||b->nan,a->vid==b->vid?a->vid:NT.get(N_ITE,c,a->vid,b->vid),d);
  }
  if(a->k==PTR){
    if(a->vid==b->vid) return a; std::vector<Tgt> t=a->tg;
    for(auto&y:b->tg){ bool f=false; for(auto&x:t) if(x.obj==y.obj){ i64 st=igcd(igcd(x.step,y.step),x.lo-y.lo); bool xs=x.lo==x.hi,ys=y.lo==y.hi; if(xs&&ys) st=igcd(0,x.lo-y.lo); else if(xs) st=igcd(y.step,x.lo-y.lo); else if(ys) st=igcd(x.step,x.lo-y.lo); if(st==0) st=1; x.lo=std::min(x.lo,y.lo); x.hi=std::max(x.hi,y.hi); x.step=st; x.blo=std::min(x.blo,y.blo); x.bhi=std::max(x.bhi,y.bhi); x.ilo=std::min(x.ilo,y.ilo); x.ihi=std::max(x.ihi,y.ihi); f=true; break; } if(!f) t.push_back(y); }
    V r=mkPtr(t,d); r->vid=NT.get(N_ITE,c,a->vid,b->vid); return r;
  }
  if(a->k==VEC){ if(a->el.size()!=b->el.size()) return mkUndef(a->w); std::vector<V> e; for(size_t i=0;i<a->el.size();i++) e.push_back(joinVal(a->el[i],b->el[i],c,cdep)); return mkVec(e); }
  return a;
}
V joinVal(const V&a,const V&b,u32 c,u32 cdep,const V*condV){
  if(a==b) return a; if(!a||!b) return V(); bool ua=a->k==UNDEF,ub=b->k==UNDEF; if(!ua&&!ub&&!a->und&&!b->und) return joinVal0(a,b,c,cdep,condV);
  if(ua&&ub) return a; if((ua?b:a)->k==VEC) { if(ua||ub) return ua?a:b; return joinVal0(a,b,c,cdep,condV); }
  u32 fa=ua?1:a->und,fb=ub?1:b->und,u=fIte(c,fa,fb); V r; if(ua||ub){ const V&x=ua?b:a; if((ua?a:b)->w!=x->w) return ua?a:b; Val*n=new Val(*x.p); n->rc=0; n->alt=V(); n->pv=Ref<Prov>(); n->vid=NT.get(N_ITE,c,a->vid,b->vid); n->dep=depUnion(cdep,x->dep); r=V(n); }
  else { r=joinVal0(a,b,c,cdep,nullptr); Val*n=new Val(*r.p); n->rc=0; r=V(n); }
  r->und=u; return r; }
V notV(const V&a){
  if(single(a)) return mkBool(a->lo==0);
  V r=mkBits(1,{formsOf(a.p)[0]^1u},-1,0,NT.get(N_CAST,a->vid,777),a->dep);
  if(a->pv){ Prov*p=a->pv.p; if(p->kind==P_ICMP||p->kind==P_FCMP) r=setProv(r,p->kind,CmpInst::getInversePredicate((CmpInst::Predicate)p->op),p->a,p->b); else if(p->kind==P_ITE) r=setProv(r,P_ITE,0,p->a,notV(p->b),notV(p->c)); }
  return r;
}
V narrowInt(const V&v,i64 lo,i64 hi){ lo=std::max(lo,v->lo); hi=std::min(hi,v->hi); if(lo>hi) return V(); if(lo==v->lo&&hi==v->hi) return v; if(lo==hi) { return mkInt(v->w,lo);} Val*n=new Val(*v.p); n->rc=0; n->lo=lo;n->hi=hi; return V(n); }
V narrowFlt(const V&v,double lo,double hi,bool nan){ bool em=v->flo>v->fhi; double l=em?1:std::max(lo,v->flo),h=em?0:std::min(hi,v->fhi); bool nn=nan&&v->nan; if(l>h&&!nn) return V(); if(!em&&l==v->flo&&h==v->fhi&&nn==(bool)v->nan) return v; if(l>h){l=1;h=0;} Val*n=new Val(*v.p); n->rc=0; n->flo=l;n->fhi=h;n->nan=nn; if(l==h&&!nn&&l!=0){ return mkF(v->w,l);} return V(n); }
double fround_(u32 w,double x){ return w==32?(double)(float)x:x; }

static void urange(const Val*v,u64&l,u64&h){ if(v->lo>=0||v->hi<0){ l=(u64)v->lo&uMask(v->w); h=(u64)v->hi&uMask(v->w);} else { l=0;h=uMask(v->w);} }
static void fromU(u32 w,u64 l,u64 h,i64&lo,i64&hi){ if(h<=(u64)sMax(w)||l>(u64)sMax(w)){ lo=sx(l,w);hi=sx(h,w);} else {lo=sMin(w);hi=sMax(w);} }
static std::vector<u32> addForms(const std::vector<u32>&a,const std::vector<u32>&b,u32 carry){
  size_t w=a.size(); std::vector<u32> r(w,FU); u32 c=carry;
  for(size_t i=0;i<w;i++){ if(a[i]==FU||b[i]==FU||c==FU){ if((a[i]==0&&b[i]==0&&c==FU)){ r[i]=FU; c=0; continue;} r[i]=FU; c=FU; if(a[i]==0&&b[i]==0) c=0; continue; }
    u32 x=fXor(a[i],b[i]); r[i]=fXor(x,c); c=fXor(fAnd(a[i],b[i]),fAnd(c,x)); }
  return r;
}
static u64 ceilPow(u64 x){ while(x&(x+1)) x|=x>>1; return x; }
V intBin(u32 op,const V&a,const V&b,bool&ovS,bool&ovU,bool&div0,bool&sdivov,bool&badsh){
  u32 w=a->w; u32 d=depUnion(a->dep,b->dep); i64 lo=sMin(w),hi=sMax(w); std::vector<u32> f; bool hasf=false; bool bb=(a->bits||b->bits);
  bool sa=single(a),sb=single(b); u32 va=a->vid,vb=b->vid;
  bool comm=op==Instruction::Add||op==Instruction::Mul||op==Instruction::And||op==Instruction::Or||op==Instruction::Xor; if(comm&&va>vb) std::swap(va,vb);
  u32 vid=NT.get(N_BIN+op,va,vb,w);
  u64 al,ah,bl,bh; urange(a.p,al,ah); urange(b.p,bl,bh);
  switch(op){
  case Instruction::Add: case Instruction::Sub: { i128 l,h; if(op==Instruction::Add){ l=(i128)a->lo+b->lo;h=(i128)a->hi+b->hi; if(sb&&b->lo==0) return a; if(sa&&a->lo==0) return b; } else { l=(i128)a->lo-b->hi;h=(i128)a->hi-b->lo; if(sb&&b->lo==0) return a; if(a->vid==b->vid) return mkInt(w,0); }
    if(l<sMin(w)||h>sMax(w)) ovS=true; if(l>=sMin(w)&&h<=sMax(w)){lo=(i64)l;hi=(i64)h;} if(sa&&sb) return mkInt(w,(i64)((u64)(i64)l));
    if(bb){ auto fa=formsOf(a.p),fb=formsOf(b.p); if(op==Instruction::Sub){ for(auto&x:fb) if(x!=FU) x^=1; f=addForms(fa,fb,1);} else f=addForms(fa,fb,0); hasf=true; } break; }
  case Instruction::Mul: { if(sa&&sb){ i128 p=(i128)a->lo*b->lo; if(p<sMin(w)||p>sMax(w)) ovS=true; return mkInt(w,(i64)(u64)p);} if(sb&&b->lo==1) return a; if(sa&&a->lo==1) return b; if((sa&&a->lo==0)||(sb&&b->lo==0)) return mkInt(w,0);
    i128 c[4]={(i128)a->lo*b->lo,(i128)a->lo*b->hi,(i128)a->hi*b->lo,(i128)a->hi*b->hi}; i128 l=*std::min_element(c,c+4),h=*std::max_element(c,c+4); if(l<sMin(w)||h>sMax(w)) ovS=true; else {lo=(i64)l;hi=(i64)h;}
    if(bb&&(sa||sb)){ const V&x=sa?b:a; u64 k=(u64)(sa?a->lo:b->lo)&uMask(w); auto fx=formsOf(x.p); int nz=0,pos=-1; for(u32 i=0;i<w;i++) if(fx[i]!=0){nz++;pos=i;}
      if((k&(k-1))==0){ int s=__builtin_ctzll(k); f.assign(w,0); for(u32 i=s;i<w;i++) f[i]=fx[i-s]; hasf=true; }
      else if(nz==1){ f.assign(w,0); for(u32 i=0;i+pos<w;i++) if((k>>i)&1) f[i+pos]=fx[pos]; hasf=true; }
      else { int tz=__builtin_ctzll(k); f.assign(w,FU); for(int i=0;i<tz&&i<(int)w;i++) f[i]=0; for(u32 i=0;i<w;i++){ if(fx[i]==0&&tz+i<w) f[tz+i]=0; else { if(tz+i<w) f[tz+i]=fx[i]; break; } } hasf=true; } }
    else if(bb){ auto fa=formsOf(a.p),fb=formsOf(b.p); int na=0,pa=0; for(u32 i=0;i<w;i++){ if(fa[i]!=0){na++;pa=i;} } int nb=0,pb=0; for(u32 i=0;i<w;i++) if(fb[i]!=0){nb++;pb=i;} if(na==1){ f.assign(w,0); for(u32 i=0;i+pa<w;i++) f[i+pa]=fAnd(fa[pa],fb[i]); hasf=true;} else if(nb==1){ f.assign(w,0); for(u32 i=0;i+pb<w;i++) f[i+pb]=fAnd(fb[pb],fa[i]); hasf=true;} }
    break; }
  case Instruction::And: { if(sa&&sb) return mkInt(w,a->lo&b->lo); if(a->vid==b->vid) return a; if((sb&&b->lo==-1)) return a; if(sa&&a->lo==-1) return b;
    if(sb&&b->lo>=0&&a->lo>=0&&((b->lo&(b->lo+1))==0)&&a->hi<=b->lo) return a; if(sa&&a->lo>=0&&b->lo>=0&&((a->lo&(a->lo+1))==0)&&b->hi<=a->lo) return b;
    if(a->lo>=0&&b->lo>=0){lo=0;hi=std::min(a->hi,b->hi);} else if(a->lo>=0){lo=0;hi=a->hi;} else if(b->lo>=0){lo=0;hi=b->hi;}
    if(bb||sa||sb){ auto fa=formsOf(a.p),fb=formsOf(b.p); f.resize(w); for(u32 i=0;i<w;i++) f[i]=fAnd(fa[i],fb[i]); hasf=true; } break; }
  case Instruction::Or: { if(sa&&sb) return mkInt(w,a->lo|b->lo); if(a->vid==b->vid) return a; if(sb&&b->lo==0) return a; if(sa&&a->lo==0) return b;
    if(a->lo>=0&&b->lo>=0){ lo=std::max(a->lo,b->lo); hi=(i64)ceilPow((u64)a->hi|(u64)b->hi);} auto fa=formsOf(a.p),fb=formsOf(b.p); f.resize(w); for(u32 i=0;i<w;i++){ u32 x=fa[i],y=fb[i]; f[i]= (x==1||y==1)?1: x==0?y: y==0?x: (x==FU||y==FU)?FU: fXor(fXor(x,y),fAnd(x,y)); } hasf=true; break; }
  case Instruction::Xor: { if(sa&&sb) return mkInt(w,a->lo^b->lo); if(a->vid==b->vid) return mkInt(w,0); if(sb&&b->lo==0) return a; if(sa&&a->lo==0) return b;
    if(w==1&&sb) return notV(a); if(w==1&&sa) return notV(b);
    if(a->lo>=0&&b->lo>=0){ lo=0; hi=(i64)ceilPow((u64)a->hi|(u64)b->hi);} if(bb||sa||sb){ auto fa=formsOf(a.p),fb=formsOf(b.p); f.resize(w); for(u32 i=0;i<w;i++) f[i]=fXor(fa[i],fb[i]); hasf=true; } break; }
  case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
    if(bh>=w){ badsh=true; return mkIntR(w,lo,hi,vid,d);} if(sb&&b->lo==0) return a;
    if(sa&&sb){ u64 u=(u64)a->lo&uMask(w); int s=(int)b->lo; if(op==Instruction::Shl){ i128 p=(i128)a->lo<<s; if(p<sMin(w)||p>sMax(w)) ovS=true; return mkInt(w,(i64)(u<<s)); } if(op==Instruction::LShr) return mkInt(w,(i64)(u>>s)); return mkInt(w,a->lo>>s); }
    if(sb){ int s=(int)b->lo; if(op==Instruction::Shl){ i128 l=(i128)a->lo<<s,h=(i128)a->hi<<s; if(l<sMin(w)||h>sMax(w)) ovS=true; else {lo=(i64)l;hi=(i64)h;} }
      else if(op==Instruction::LShr) fromU(w,al>>s,ah>>s,lo,hi); else {lo=a->lo>>s;hi=a->hi>>s;}
      auto fa=formsOf(a.p); f.assign(w,0); for(u32 i=0;i<w;i++){ if(op==Instruction::Shl) f[i]=(int)i>=s?fa[i-s]:0; else f[i]= i+s<w?fa[i+s]:(op==Instruction::AShr?fa[w-1]:0);} hasf=true; }
    else { // variable amount: hull, and per-bit mux when the shifted value is constant or symbolic
      i128 L=0,H=0; bool first=true; for(u64 s=bl;s<=bh;s++){ i64 l,h; if(op==Instruction::Shl){ i128 p=(i128)a->lo<<s,q=(i128)a->hi<<s; if(p<sMin(w)||q>sMax(w)){ ovS=true; l=sMin(w);h=sMax(w);} else {l=(i64)p;h=(i64)q;} } else if(op==Instruction::LShr) fromU(w,al>>s,ah>>s,l,h); else {l=a->lo>>s;h=a->hi>>s;} if(first){L=l;H=h;first=false;} else {L=std::min<i128>(L,l);H=std::max<i128>(H,h);} } lo=(i64)L;hi=(i64)H;
      if(b->bits){ auto fa=formsOf(a.p); auto fb=formsOf(b.p); for(u32 k=0;(1u<<k)<w&&k<fb.size();k++){ std::vector<u32> g(w,0); u32 s=1u<<k; for(u32 i=0;i<w;i++){ u32 sh; if(op==Instruction::Shl) sh=i>=s?fa[i-s]:0; else sh=i+s<w?fa[i+s]:(op==Instruction::AShr?fa[w-1]:0); g[i]=fIte(fb[k],sh,fa[i]); } fa=g; } f=fa; hasf=true; } }
    break; }
  case Instruction::UDiv: { if(bl==0){div0=true; break;} if(sb&&b->lo==1) return a; if(sa&&sb) return mkInt(w,(i64)(al/bl)); fromU(w,al/bh,ah/bl,lo,hi); if(sb&&(bl&(bl-1))==0){ int s=__builtin_ctzll(bl); auto fa=formsOf(a.p); f.assign(w,0); for(u32 i=0;i+s<w;i++) f[i]=fa[i+s]; hasf=true; } break; }
  case Instruction::URem: { if(bl==0){div0=true; break;} if(sa&&sb) return mkInt(w,(i64)(al%bl)); if(ah<bl) return a; fromU(w,0,std::min(ah,bh-1),lo,hi); if(sb&&(bl&(bl-1))==0){ int s=__builtin_ctzll(bl); auto fa=formsOf(a.p); f.assign(w,0); for(int i=0;i<s;i++) f[i]=fa[i]; hasf=true; } break; }
  case Instruction::SDiv: { if(b->lo<=0&&b->hi>=0){div0=true; break;} if(a->lo==sMin(w)&&b->lo<=-1&&b->hi>=-1) {sdivov=true; break;} if(sb&&b->lo==1) return a; i64 c[4]={a->lo/b->lo,a->lo/b->hi,a->hi/b->lo,a->hi/b->hi}; lo=*std::min_element(c,c+4);hi=*std::max_element(c,c+4); if(a->lo<0&&a->hi>0){lo=std::min<i64>(lo,0);hi=std::max<i64>(hi,0);}
    if(a->lo>=0&&sb&&b->lo>0&&(b->lo&(b->lo-1))==0){ int s=__builtin_ctzll(b->lo); auto fa=formsOf(a.p); f.assign(w,0); for(u32 i=0;i+s<w;i++) f[i]=fa[i+s]; hasf=true; vid=NT.get(N_BIN+Instruction::UDiv,a->vid,b->vid,w);} break; }
  case Instruction::SRem: { if(b->lo<=0&&b->hi>=0){div0=true; break;} if(a->lo==sMin(w)&&b->lo<=-1&&b->hi>=-1) {sdivov=true; break;} if(sa&&sb) return mkInt(w,a->lo%b->lo); i64 m=std::max(std::llabs(b->lo),std::llabs(b->hi))-1; if(a->lo>=0&&b->lo>a->hi) return a; lo=a->lo<0?std::max(-m,a->lo):0; hi=a->hi>0?std::min(m,a->hi):0; if(a->lo>=0&&sb&&b->lo>0&&(b->lo&(b->lo-1))==0){ int s=__builtin_ctzll(b->lo); auto fa=formsOf(a.p); f.assign(w,0); for(int i=0;i<s;i++) f[i]=fa[i]; hasf=true; } if(a->lo>=0&&b->lo>0) vid=NT.get(N_BIN+Instruction::URem,a->vid,b->vid,w); break; }
  }
  if(hasf) return mkBits(w,f,lo,hi,vid,d); return mkIntR(w,lo,hi,vid,d);
}
V fltBin(u32 op,const V&a,const V&b){
  u32 w=a->w,d=depUnion(a->dep,b->dep); bool sa=single(a),sb=single(b);
  auto ev=[&](double x,double y)->double{ switch(op){case Instruction::FAdd: return fround_(w,x+y); case Instruction::FSub: return fround_(w,x-y); case Instruction::FMul: return fround_(w,x*y); case Instruction::FDiv: return fround_(w,x/y); default: return fround_(w,fmod(x,y));} };
  if(sa&&sb) return mkF(w,ev(a->flo,b->flo));
  u32 va=a->vid,vb=b->vid; if((op==Instruction::FAdd||op==Instruction::FMul)&&va>vb) std::swap(va,vb);
  u32 vid=NT.get(N_BIN+op,va,vb,w); bool nan=a->nan||b->nan; double lo=-INFINITY,hi=INFINITY;
  if(a->flo>a->fhi||b->flo>b->fhi) { V r=mkF(w,NAN); V q(new Val(*r.p)); q->rc=1; q->vid=vid; q->dep=d; return q; }
  bool ai=std::isinf(a->flo)||std::isinf(a->fhi),bi=std::isinf(b->flo)||std::isinf(b->fhi),az=a->flo<=0&&a->fhi>=0,bz=b->flo<=0&&b->fhi>=0;
  switch(op){
  case Instruction::FAdd: case Instruction::FSub: { double bl=b->flo,bh=b->fhi; if(op==Instruction::FSub){ bl=-b->fhi;bh=-b->flo; } if((a->fhi==INFINITY&&bl==-INFINITY)||(a->flo==-INFINITY&&bh==INFINITY)) nan=true; lo=fround_(w,a->flo+bl);hi=fround_(w,a->fhi+bh); if(std::isnan(lo)) lo=-INFINITY; if(std::isnan(hi)) hi=INFINITY; break; }
  case Instruction::FMul: { if(sb&&b->flo==1.0) return a; if(sa&&a->flo==1.0) return b; if((ai&&bz)||(bi&&az)) nan=true; double x[4]={a->flo,a->flo,a->fhi,a->fhi},y[4]={b->flo,b->fhi,b->flo,b->fhi}; lo=INFINITY;hi=-INFINITY; for(int i=0;i<4;i++){ double p=fround_(w,x[i]*y[i]); if(std::isnan(p)) p=0; lo=std::min(lo,p);hi=std::max(hi,p);} if(a->vid==b->vid){ if(lo<0) lo=0; } break; }
  case Instruction::FDiv: { if(sb&&b->flo==1.0) return a; if(ai&&bi) nan=true; if(bz){ if(az) nan=true; lo=-INFINITY;hi=INFINITY; } else { double x[4]={a->flo,a->flo,a->fhi,a->fhi},y[4]={b->flo,b->fhi,b->flo,b->fhi}; lo=INFINITY;hi=-INFINITY; for(int i=0;i<4;i++){ double p=fround_(w,x[i]/y[i]); if(std::isnan(p)) p=0; lo=std::min(lo,p);hi=std::max(hi,p);} if(bi) {lo=std::min(lo,0.0);hi=std::max(hi,0.0);} } break; }
  default: { if(ai||bz) nan=true; double m=std::max(std::fabs(b->flo),std::fabs(b->fhi)); if(a->flo>=0&&b->flo>a->fhi) return a; lo=a->flo<0?std::max(-m,a->flo):0; hi=a->fhi>0?std::min(m,a->fhi):0; break; }
  }
  return mkFR(w,lo,hi,nan,vid,d);
}
static V withCmp(V r,u32 pred,bool isF,const V&a,const V&b){ return setProv(r,isF?P_FCMP:P_ICMP,pred,a,b); }
V icmpV(u32 pred,const V&a,const V&b){
  u32 d=depUnion(a->dep,b->dep);
  if(pred==CmpInst::ICMP_EQ||pred==CmpInst::ICMP_NE){
    bool ne=pred==CmpInst::ICMP_NE;
    if(a->vid==b->vid) return mkBool(!ne); if(a->lo>b->hi||a->hi<b->lo) return mkBool(ne);
    // a two-valued quantity compared with its upper value
    if(single(b)&&a->hi==a->lo+1&&b->lo==a->hi&&a->w>1) return notV(icmpV(pred,a,mkInt(a->w,a->lo))); if(single(a)&&b->hi==b->lo+1&&a->lo==b->hi&&b->w>1) return notV(icmpV(pred,mkInt(b->w,b->lo),b));
    // bool behind zext compared with 0/1
    if(a->alt&&a->alt->k==INT&&a->alt->w==1&&single(b)&&(b->lo==0||b->lo==1)){ bool wantTrue=(b->lo==1)!=ne; return wantTrue?a->alt:notV(a->alt); }
    if(b->alt&&b->alt->k==INT&&b->alt->w==1&&single(a)&&(a->lo==0||a->lo==1)) return icmpV(pred,b,a);
    if(a->bits||b->bits){ auto fa=formsOf(a.p),fb=formsOf(b.p); int nd=0; u32 df=0; bool unk=false; std::vector<u32> dl; for(u32 i=0;i<a->w;i++){ u32 x=(fa[i]==FU||fb[i]==FU)?FU:fXor(fa[i],fb[i]); if(x==1) return mkBool(ne); if(x==FU){unk=true;continue;} if(x>1&&std::find(dl.begin(),dl.end(),x)==dl.end()){ dl.push_back(x); nd++; df=x; } }
      if(!unk){ if(nd==0) return mkBool(!ne); u32 r=df; if(nd>1){ // OR of differences
          r=0; for(u32 x:dl) r=fXor(fXor(r,x),fAnd(r,x)); }
        return withCmp(mkBits(1,{ne?r:(r^1)},-1,0,0,d),pred,false,a,b); } }
    u32 x=a->vid,y=b->vid; if(x>y) std::swap(x,y); V r=mkI1(NT.get(N_BIN+900,x,y),d); if(ne) r=notV(r); return withCmp(r,pred,false,a,b);
  }
  bool uns=CmpInst::isUnsigned((CmpInst::Predicate)pred); V x=a,y=b; bool neg=false,sw=false; u32 base;
  switch(pred){ case CmpInst::ICMP_SLT: case CmpInst::ICMP_ULT: break; case CmpInst::ICMP_SGT: case CmpInst::ICMP_UGT: sw=true; break; case CmpInst::ICMP_SGE: case CmpInst::ICMP_UGE: neg=true; break; default: sw=true;neg=true; }
  if(sw) std::swap(x,y); // decide x<y
  if(uns&&x->lo>=0&&y->lo>=0) uns=false; base=uns?901:902;
  int dec=-1; if(x->vid==y->vid) dec=0; else if(uns){ u64 xl,xh,yl,yh; urange(x.p,xl,xh); urange(y.p,yl,yh); if(xh<yl) dec=1; else if(xl>=yh) dec=0; } else { if(x->hi<y->lo) dec=1; else if(x->lo>=y->hi) dec=0; }
  if(dec>=0) return mkBool(dec!=(int)neg);
  u32 xv=x->vid,yv=y->vid; if(base==902&&single(x)&&x->lo<sMax(x->w)){ xv=y->vid; yv=mkInt(x->w,x->lo+1)->vid; neg=!neg; } // c<y  ==  !(y<c+1)
  V r=mkI1(NT.get(N_BIN+base,xv,yv),d); if(neg) r=notV(r); return withCmp(r,pred,false,a,b);
}
V fcmpV(u32 pred,const V&a,const V&b){
  u32 d=depUnion(a->dep,b->dep); if(pred==CmpInst::FCMP_TRUE) return mkBool(true); if(pred==CmpInst::FCMP_FALSE) return mkBool(false);
  bool ae=a->flo>a->fhi,be=b->flo>b->fhi; bool same=a->vid==b->vid; bool lt=!ae&&!be&&!same&&a->flo<b->fhi,gt=!ae&&!be&&!same&&a->fhi>b->flo,eq=!ae&&!be&&(same||(a->flo<=b->fhi&&a->fhi>=b->flo)),un=a->nan||b->nan;
  u32 bits=pred; // llvm: bit0 eq, bit1 gt, bit2 lt, bit3 uno
  bool anyT=(eq&&(bits&1))||(gt&&(bits&2))||(lt&&(bits&4))||(un&&(bits&8)),anyF=(eq&&!(bits&1))||(gt&&!(bits&2))||(lt&&!(bits&4))||(un&&!(bits&8));
  if(!anyF) return mkBool(true); if(!anyT) return mkBool(false);
  // canonical: drop impossible outcomes, orient
  u32 p=bits; if(!un) p&=7; bool neg=false; u32 x=a->vid,y=b->vid; if(p&8){ p=(~p)&15; neg=true; } 
  if(!un){ if(p==6||p==5||p==3){ // one, ole/oge without NaN => negate
      p=(~p)&7; neg=!neg; } }
  if(p==2||p==3||p==6&&x>y){ std::swap(x,y); if(p==2) p=4; else if(p==3) p=5; } if((p==1||p==7)&&x>y) std::swap(x,y); if(p==7&&!a->nan) x=y=b->vid; else if(p==7&&!b->nan) x=y=a->vid; if(p==7&&x==y) p=1; /* ordered with itself: equal to itself */
  V r=mkI1(NT.get(N_BIN+910+p,x,y),d); if(neg) r=notV(r); return withCmp(r,pred,true,a,b);
}
std::string showVal(const V&v){
  char b[256]; if(!v) return "<none>";
  switch(v->k){ case INT: if(v->lo==v->hi) snprintf(b,256,"%lld",(long long)v->lo); else snprintf(b,256,"int in [%lld,%lld]",(long long)v->lo,(long long)v->hi); return b;
  case FLT: if(v->flo>v->fhi) return "NaN"; if(single(v)) snprintf(b,256,"%.9g",v->flo); else snprintf(b,256,"float in [%.6g,%.6g]%s",v->flo,v->fhi,v->nan?" or NaN":""); return b;
  case PTR: { std::string s="ptr{"; for(auto&t:v->tg){ snprintf(b,256," #%u+[%lld,%lld]",t.obj,(long long)t.lo,(long long)t.hi); s+=b;} return s+" }"; }
  case UNDEF: return "<uninitialised>"; case VEC: { std::string s="<"; for(auto&e:v->el) s+=showVal(e)+","; return s+">"; } }
  return "?";
}
std::string showVid(u32 id,int depth){ Node&x=NT.n[id]; char b[128]; if(x.op==N_CI){ snprintf(b,128,"%lld",(long long)sx(x.b|((u64)x.c<<32),x.a)); return b;} if(x.op==N_CF){ if(x.a==32){ float f; memcpy(&f,&x.b,4); snprintf(b,128,"%g",f);} else { u64 u=x.b|((u64)x.c<<32); double f; memcpy(&f,&u,8); snprintf(b,128,"%g",f);} return b;}
  if(x.op==N_FRESH) { snprintf(b,128,"v%u",id); return b; }
  if(depth<=0){ snprintf(b,128,"#%u",id); return b; }
  if(x.op==N_BITS) { snprintf(b,128,"bits%u",x.a); return b;} if(x.op==N_ITE) { std::string cs; if(x.a!=FU&&x.a>1){ auto&q=SETS.v[x.a>>1]; cs=(x.a&1)?"!":""; for(u32 k:q){ u32 v=SYMVID[k]; if(v) cs+="["+std::to_string(NT.n[v].op-N_BIN)+" "+showVid(NT.n[v].a,depth-1)+" ? "+showVid(NT.n[v].b,depth-1)+"]"; else cs+="s"+std::to_string(k); } } else snprintf(b,128,"c%u",x.a),cs=b; return "ite("+cs+","+showVid(x.b,depth-1)+","+showVid(x.c,depth-1)+")"; }
  if(x.op>=N_BIN){ const char*n=x.op-N_BIN<100?Instruction::getOpcodeName(x.op-N_BIN):"cmp"; return std::string(n)+"("+showVid(x.a,depth-1)+","+(x.b?showVid(x.b,depth-1):"")+")"; }
  snprintf(b,128,"n%u(",x.op); return std::string(b)+showVid(x.a,depth-1)+")"; }
