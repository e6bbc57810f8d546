#include "interp.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/InlineAsm.h"
#include <sys/wait.h>
#include <sys/stat.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/mman.h>
#include <unistd.h>
#include <pthread.h>
#include <fcntl.h>
#include <time.h>

std::vector<OI> OBJ(1);
static Module*M; static const DataLayout*DL; static LLVMContext CTX;
static std::map<const Function*,int> fnIdx; static std::vector<Fn> FNS;
static std::map<const GlobalValue*,u32> gobj; static std::map<std::string,Function*> stubs;
static std::vector<std::string> callstack; static u64 budget=400000000ull,icount=0; static int curPart=-1;
static std::vector<std::pair<u32,Ref<Obj>>> marked; static std::set<u32> libData;
static bool ofHarness(const GlobalVariable&g){ SmallVector<DIGlobalVariableExpression*,1> ds; g.getDebugInfo(ds); for(auto*x:ds) if(x->getVariable()->getFile()&&(x->getVariable()->getFile()->getDirectory().str()+"/"+x->getVariable()->getFilename().str()).find("/harness/")!=std::string::npos) return true; return false; }
static int mallocMode=0; static u32 mallocResidue=0; static int mallocCount=0,mallocFailAt=-1; static std::vector<u32> liveHeapLog;
static std::vector<Finding> findings; static std::set<std::string> findKeys; static std::set<std::string> funcsSeen;
static std::map<std::string,u64> oblCount; static std::map<std::string,std::set<const void*>> oblSites;
static std::vector<std::string> OUTS;
static u32 SPLITCAP=24;
static State S0;
static bool quietUninitVec=false;
struct AnalysisError { std::string m; };
[[noreturn]] static void fail(const std::string&m){ throw AnalysisError{m}; }
static std::string jesc(const std::string&s){ std::string r; for(char c:s){ if(c=='"'||c=='\\'){ r+='\\'; r+=c;} else if((u8)c<32) { char b[8]; snprintf(b,8,"\\u%04x",c); r+=b;} else r+=c;} return r; }
static void locOf(Instruction*I,std::string&file,int&line,std::string&func){
  file="?";line=0; func=I?I->getFunction()->getName().str():"?"; if(!I) return; const DILocation*d=I->getDebugLoc().get();
  if(d){ // inlined code: report the innermost location
    line=d->getLine(); file=d->getFilename().str(); if(auto*sp=d->getScope()->getSubprogram()) func=sp->getName().str(); }
}
static Instruction*curI=nullptr; static const Function*lastLib=nullptr;
static bool inHarness(const Function*f){ auto*sp=f->getSubprogram(); return sp&&sp->getFilename().contains("harness/"); }
static void (*checkpoint)()=nullptr; static std::set<std::string> ownCats; // partial results are saved at each finding, should the rest take too long
static void report(const char*cat,const std::string&msg,Instruction*I=nullptr){
  if(!I) I=curI; Finding f; f.cat=cat; f.msg=msg; locOf(I,f.file,f.line,f.func); std::string key=f.cat+"|"+f.file+"|"+std::to_string(f.line)+"|"+f.func+"|"+(strcmp(cat,"assert")==0?msg:"");
  if(!findKeys.insert(key).second) return; for(auto&s:callstack) f.stack+=(f.stack.empty()?"":" > ")+s; if(!strcmp(cat,"assert")&&lastLib){ auto*sp=lastLib->getSubprogram(); f.stack+="; result of "+lastLib->getName().str()+(sp?" at "+sp->getFilename().str()+":"+std::to_string(sp->getLine()):""); } if(findings.size()<400) findings.push_back(f);
  if(checkpoint&&(ownCats.empty()||ownCats.count(cat))) checkpoint();
}
static inline void obl(const char*cat){ static const char*last=nullptr; static u64*cp=nullptr; static std::set<const void*>*sp=nullptr; if(cat!=last){ cp=&oblCount[cat]; sp=&oblSites[cat]; last=cat; } ++*cp; sp->insert(curI); }

Ref<Obj>* State::find(u32 id){ if(id<mem.size()&&mem[id].first==id) return &mem[id].second; auto it=std::lower_bound(mem.begin(),mem.end(),id,[](const std::pair<u32,Ref<Obj>>&a,u32 b){return a.first<b;}); if(it==mem.end()||it->first!=id) return nullptr; return &it->second; }

// ---------- values <-> types ----------
static V topInt(u32 w,u32 vid,u32 dep){ return mkIntR(w,sMin(w),sMax(w),vid,dep); }
static V topF(u32 w,u32 vid,u32 dep){ return mkFR(w,-INFINITY,INFINITY,true,vid,dep); }
static V cloneV(const V&a){ Val*n=new Val(*a.p); n->rc=0; return V(n); }
static V withUnd(V r,u32 u){ if(!u||r->k==UNDEF) return r; V x=cloneV(r); x->und=u; return x; }
static V clean(const V&v){ V x=cloneV(v); x->und=0; return x; }
static V intOfFloat(const V&f){ // int view
  if(f->und) return withUnd(intOfFloat(clean(f)),f->und);
  if(single(f)||(f->k==FLT&&NT.n[f->vid].op==N_CF)){ if(f->w==32){ float x=(float)f->flo; u32 u; if(f->flo>f->fhi) u=NT.n[f->vid].op==N_CF?NT.n[f->vid].b:0x7fc00000; else memcpy(&u,&x,4); return mkInt(32,(i64)(int)u);} double x=f->flo; if(f->flo>f->fhi) x=NAN; u64 u; memcpy(&u,&x,8); return mkInt(64,(i64)u); }
  V r=topInt(f->w,NT.get(N_CAST,f->vid,9001),f->dep);
  if(f->flo>=0&&!f->nan&&!(f->flo==0)){ r->lo=0; }
  r->alt=f; return r; }
static V floatOfInt(const V&i){ if(i->und) return withUnd(floatOfInt(clean(i)),i->und); if(i->alt&&i->alt->k==FLT) return i->alt; if(single(i)){ if(i->w==32){ u32 u=(u32)i->lo; float x; memcpy(&x,&u,4); V r=mkF(32,x); if(std::isnan(x)) r->vid=NT.get(N_CF,32,u,1); return r;} u64 u=(u64)i->lo; double x; memcpy(&x,&u,8); return mkF(64,x);} 
  Node&nn=NT.n[i->vid]; (void)nn; return topF(i->w,NT.get(N_CAST,i->vid,9002),i->dep); }
static V byteOf(const V&v,u32 b); static V composeBytes(std::vector<V>&b); // little endian
static V toInt(const V&v,u32 w){ // any -> INT of width w (bit pattern)
  if(!v) fail("null value"); if(v->k==INT&&v->w==w) return v;
  if(v->k==UNDEF){ return v; }
  if(v->k==FLT) return intOfFloat(v);
  if(v->k==PTR){ if(v->und) return mkUndef(w); V r; if(v->tg.size()==1&&v->tg[0].obj==0) return mkInt(64,v->tg[0].lo); 
    std::vector<u32> f(64,FU); if(v->tg.size()==1){ auto&t=v->tg[0]; OI&o=OBJ[t.obj]; u64 al=o.heap?64:o.align; if(t.lo==t.hi){ u64 low=((u64)t.lo+o.residue); for(u32 i=0;(1ull<<(i+1))<=al&&i<6;i++) f[i]=(low>>i)&1; } }
    r=mkBits(64,f,1,INT64_MAX,NT.get(N_CAST,v->vid,9003),v->dep); r->alt=v; return r; }
  if(v->k==VEC){ std::vector<V> b; bool un=false; for(auto&e:v->el){ if(e->k==UNDEF) un=true; } if(un) return mkUndef(w); for(auto&e:v->el) for(u32 i=0;i<e->w/8;i++) b.push_back(byteOf(e,i)); V r=composeBytes(b); if(r->k==INT&&r->w==w) return r; fail("toInt vec width"); }
  if(v->k==INT){ fail("toInt width mismatch"); }
  fail("toInt"); }
static V byteOf(const V&v0,u32 b){ V v=v0; if(v->w==8&&v->k==INT) return v; if(v->k==UNDEF||v->und) return mkUndef(8); if(v->k==VEC){ for(auto&e:v->el){ u32 n=e->w/8; if(b<n) return byteOf(e,b); b-=n; } fail("byteOf"); }
  if(v->k!=INT) v=toInt(v,v->w); u32 w=v->w; if(w==1) { // stored i1 as byte
    std::vector<u32> f(8,0); f[0]=formsOf(v.p)[0]; return mkBits(8,f,0,1,NT.get(N_CAST,v->vid,9008),v->dep); }
  auto f=formsOf(v.p); std::vector<u32> g(8); bool k=true; for(u32 i=0;i<8;i++){ g[i]=b*8+i<f.size()?f[b*8+i]:0; if(g[i]==FU) k=false; } (void)k; return mkBits(8,g,-128,127,NT.get(N_EXT,v->vid,b),v->dep); }
static V composeBytes(std::vector<V>&b){ std::vector<u32> f; u32 d=0; std::vector<u32> ids; for(auto&x:b){ if(x->k==UNDEF||x->und) return mkUndef(b.size()*8); V y=x; if(y->k!=INT) y=toInt(y,8); auto g=formsOf(y.p); f.insert(f.end(),g.begin(),g.end()); d=depUnion(d,y->dep); ids.push_back(y->vid);} u32 w=b.size()*8; if(w>64){ fail("compose>64"); }
  // recombining all bytes of one value in order
  Node&n0=NT.n[ids[0]]; if(n0.op==N_EXT&&n0.b==0){ bool all=true; for(u32 i=1;i<ids.size();i++){ Node&n=NT.n[ids[i]]; if(n.op!=N_EXT||n.a!=n0.a||n.b!=i) all=false; } if(all){ return mkBits(w,f,sMin(w),sMax(w),n0.a,d); } }
  return mkBits(w,f,sMin(w),sMax(w),NT.get(N_CAST,IDV.get(ids),9010),d); }
// relayout a 128-ish bit vector into n lanes of width ew
static V relayout(const V&v,u32 n,u32 ew,u8 etk){
  if(v->k==VEC&&v->el.size()==n){ bool ok=true; for(auto&e:v->el) if(e->w!=ew) ok=false; if(ok){ bool conv=false; for(auto&e:v->el) if((etk==T_FLT&&e->k==INT)||(etk==T_INT&&e->k==FLT)) conv=true; if(!conv) return v; std::vector<V> r; for(auto&e:v->el){ if(etk==T_FLT&&e->k==INT) r.push_back(floatOfInt(e)); else if(etk==T_INT&&e->k==FLT) r.push_back(intOfFloat(e)); else r.push_back(e);} return mkVec(r);} }
  std::vector<V> src; if(v->k==VEC) src=v->el; else src.push_back(v);
  if(v->k==UNDEF){ std::vector<V> r; for(u32 i=0;i<n;i++) r.push_back(mkUndef(ew)); return mkVec(r); }
  std::vector<V> b; for(auto&e:src) for(u32 i=0;i<e->w/8;i++) b.push_back(byteOf(e,i)); if(b.size()*8!=n*ew) fail("relayout width");
  // fast: group lanes
  std::vector<V> r; u32 pos=0; size_t si=0; u32 so=0; (void)pos;
  for(u32 i=0;i<n;i++){ std::vector<V> p(b.begin()+i*ew/8,b.begin()+(i+1)*ew/8); V x=composeBytes(p); if(x->k==INT&&etk==T_FLT) x=floatOfInt(x); r.push_back(x);} (void)si;(void)so; return mkVec(r); }
static V asType(const V&v,u8 tk,u32 w,u32 n,u32 ew,u8 etk){
  switch(tk){
  case T_INT: if(w>64) return v; if(v->k==INT&&v->w==w) return v; if(v->k==UNDEF) return v->w==w?v:mkUndef(w); if(v->k==INT&&v->w==8&&w==1){ bool a,b,c,d,e; V x=intBin(Instruction::And,v,mkInt(8,1),a,b,c,d,e); return icmpV(CmpInst::ICMP_NE,x,mkInt(8,0)); } if(v->k==PTR||v->k==VEC) return v; return toInt(v,w);
  case T_FLT: if(v->k==FLT) return v; if(v->k==INT) return floatOfInt(v); if(v->k==VEC) { V x=toInt(v,w); return x->k==UNDEF?x:floatOfInt(x);} return v;
  case T_PTR: if(v->k==PTR||v->k==UNDEF) return v; { V x=v->k==VEC?toInt(v,64):v; if(x->k==UNDEF) return x; if(x->k==INT){ if(x->alt&&x->alt->k==PTR) return x->alt; if(single(x)&&x->lo==0) return mkNull(); } return x; }
  case T_VEC: return v->k==VEC||v->k==UNDEF?relayout(v,n,ew,etk):v;
  default: return v; } }

// ---------- memory ----------
static Ref<Obj> newObj(u32 size){ Obj*o=new Obj; o->n=size; o->c.resize((size+63)/64); return Ref<Obj>(o); }
static inline const Ent* entAt(const Obj*o,u32 off){ Chunk*c=o->c[off>>6].p; if(!c) return nullptr; const Ent*e=&c->e[off&63]; return e->v?e:nullptr; }
static V byteAt(const Obj*o,u32 id,u32 off){ const Ent*e=entAt(o,off); if(e) return byteOf(e->v,e->bi); switch(OBJ[id].def){ case D_ZERO: return mkInt(8,0); case D_UNINIT: return mkUndef(8); default: return topInt(8,NT.get(N_EXT,NT.get(N_SYM,id,0x7777),off),0);} }
static V readVal(const Obj*o,u32 id,u32 off,u8 tk,u32 w,u32 n,u32 ew,u8 etk){
  u32 nb=(w+7)/8; const Ent*e=entAt(o,off);
  if(e&&e->bi==0&&(e->v->w+7)/8==nb){ bool ok=true; for(u32 i=1;i<nb;i++){ const Ent*f=entAt(o,off+i); if(!f||f->v.p!=e->v.p||f->bi!=i){ok=false;break;} } if(ok) return asType(e->v,tk,w,n,ew,etk); }
  // sequence of whole values -> VEC (lazy layout)
  if(nb>4){ std::vector<V> el; u32 p=off; bool ok=true; while(p<off+nb){ const Ent*f=entAt(o,p); u32 m=4; if(!f){ // default region: 4 bytes
        bool alld=true; for(u32 i=0;i<4&&p+i<off+nb;i++) if(entAt(o,p+i)) alld=false; if(!alld||p+4>off+nb){ok=false;break;} Def d=OBJ[id].def; if(d==D_ZERO) el.push_back(mkInt(32,0)); else if(d==D_UNINIT) el.push_back(mkUndef(32)); else {ok=false;break;} p+=4; continue; }
      m=(f->v->w+7)/8; if(f->bi!=0||p+m>off+nb){ok=false;break;} for(u32 i=1;i<m;i++){ const Ent*g=entAt(o,p+i); if(!g||g->v.p!=f->v.p||g->bi!=i){ok=false;break;} } if(!ok) break; if(m<4&&tk!=T_INT){} el.push_back(f->v); p+=m; }
    if(ok&&el.size()>=1){ if(el.size()==1) return asType(el[0],tk,w,n,ew,etk); V v=mkVec(el); bool anyu=false; for(auto&x:el) if(x->k==UNDEF) anyu=true; if(tk==T_VEC) return relayout(v,n,ew,etk); bool allz=true; for(auto&x:el) if(!(x->k==INT&&single(x)&&x->lo==0)) allz=false; if(!allz&&(tk==T_INT)&&!anyu){ bool small=false; for(auto&x:el) if(x->w<32) small=true; if(!small) return v; } } }
  if(w>64||tk==T_VEC){ std::vector<V> r; u32 lw=tk==T_VEC?ew:32; for(u32 i=0;i<nb;i+=lw/8) r.push_back(readVal(o,id,off+i,tk==T_VEC?etk:T_INT,lw,0,0,0)); return mkVec(r); }
  std::vector<V> b; for(u32 i=0;i<nb;i++) b.push_back(byteAt(o,id,off+i)); V v=composeBytes(b); return asType(v,tk,w,n,ew,etk);
}
static Chunk* wchunk(Obj*o,u32 ci){ Ref<Chunk>&r=o->c[ci]; if(!r) r=Ref<Chunk>(new Chunk); else if(r->rc>1){ Chunk*n=new Chunk(*r.p); n->rc=0; r=Ref<Chunk>(n);} return r.p; }
static Obj* wobj(Ref<Obj>&r){ if(r->rc>1){ Obj*n=new Obj(*r.p); n->rc=0; r=Ref<Obj>(n);} return r.p; }
static void writeBytes(Obj*o,u32 off,const V&v,u32 nb){ if(v->k==VEC){ for(auto&e:v->el){ u32 m=(e->w+7)/8; writeBytes(o,off,e,m); off+=m; } return; } for(u32 i=0;i<nb;i++){ Chunk*c=wchunk(o,(off+i)>>6); Ent&e=c->e[(off+i)&63]; e.v=v; e.bi=i; } }

// ---------- facts ----------
static inline V rd(State&S,const V&v){ if(S.bloom>>(v->vid&63)&1){ for(size_t i=S.facts.size();i-->0;) if(S.facts[i].first==v->vid){ const V&f=S.facts[i].second; if(v->k==INT&&f->k==INT&&v->w==f->w){ V r=narrowInt(v,f->lo,f->hi); return r?r:f; } if(v->k==FLT&&f->k==FLT){ V r=narrowFlt(v,f->flo,f->fhi,f->nan); return r?r:f; } if(v->k==PTR&&f->k==PTR) return f; break; } } return v; }
static void addFact(State&S,u32 vid,const V&n){ S.facts.push_back({vid,n}); S.bloom|=1ull<<(vid&63); }
static int knownForm(State&S,u32 f){ if(f==FU) return -1; if(f<2) return f; for(size_t i=S.known.size();i-->0;) if(S.known[i].first==(f&~1u)) return (int)S.known[i].second^(int)(f&1); return -1; }
static bool assume(State&S,const V&c,bool t,int depth=0);
static bool refineI(State&S,const V&v0,i64 lo,i64 hi,int depth=0){
  if(depth>40) return true; V v=rd(S,v0); if(v->k!=INT) return true; V n=narrowInt(v,lo,hi); if(!n) return false; if(n==v) return true;
  if(!single(v)) addFact(S,v0->vid,n);
  if(v->w==1&&v->k==INT){ if(single(n)&&!assume(S,v,n->lo!=0,depth+1)) return false; }
  if(v->alt&&v->alt->k==INT&&v->w>1){ const V&a=v->alt; if(a->w==1){ // zext/sext of bool
      bool sgn=v->lo<0; i64 tv=sgn?-1:1; bool canT=n->lo<=tv&&tv<=n->hi,canF=n->lo<=0&&0<=n->hi; if(!canT&&!canF) return false; if(!canT){ if(!assume(S,a,false,depth+1)) return false;} else if(!canF){ if(!assume(S,a,true,depth+1)) return false; } }
    else { V ar=rd(S,a); if(ar->w<v->w){ i64 l=n->lo,h=n->hi; bool zx=v->pv&&v->pv->op==1; if(!zx||ar->lo>=0){ l=std::max(l,sMin(a->w)); h=std::min(h,sMax(a->w)); if(l>h) return false; if(!refineI(S,a,l,h,depth+1)) return false; } } else if(ar->lo>=sMin(v->w)&&ar->hi<=sMax(v->w)){ if(!refineI(S,a,n->lo,n->hi,depth+1)) return false; } } }
  if(v0->pv){ Prov*p=v0->pv.p; if(p->kind==P_ITE){ V x=rd(S,p->b),y=rd(S,p->c); bool ix=x->k==INT&&x->hi>=n->lo&&x->lo<=n->hi,iy=y->k==INT&&y->hi>=n->lo&&y->lo<=n->hi; if(!ix&&!iy) return false; if(!ix){ if(!assume(S,p->a,false,depth+1)) return false; if(!refineI(S,p->c,n->lo,n->hi,depth+1)) return false; } else if(!iy){ if(!assume(S,p->a,true,depth+1)) return false; if(!refineI(S,p->b,n->lo,n->hi,depth+1)) return false; } }
    else if(p->kind==P_BIN){ i128 c=p->b->lo; if(p->op==Instruction::Add){ i128 l=(i128)n->lo-c,h=(i128)n->hi-c; V a=rd(S,p->a); if((i128)a->lo+c>=sMin(v->w)&&(i128)a->hi+c<=sMax(v->w)){ if(!refineI(S,p->a,(i64)std::max<i128>(l,INT64_MIN),(i64)std::min<i128>(h,INT64_MAX),depth+1)) return false; } } } }
  if(single(n)&&v->bits){ for(u32 i=0;i<v->w;i++){ u32 f=v->bits->f[i]; if(f!=FU&&f>1){ bool b=(n->lo>>i)&1; int k=knownForm(S,f); if(k>=0&&k!=(int)b) return false; if(k<0) S.known.push_back({f&~1u,b!=(bool)(f&1)}); } } }
  return true;
}
static bool refineF(State&S,const V&v0,double lo,double hi,bool nan,int depth=0){
  if(depth>20) return true; V v=rd(S,v0); if(v->k!=FLT) return true; V n=narrowFlt(v,lo,hi,nan); if(!n) return false; if(n==v) return true; if(!single(v)) addFact(S,v0->vid,n);
  if(v0->pv){ Prov*p=v0->pv.p; if(p->kind==P_FABS){ if(!refineF(S,p->a,-n->fhi,n->fhi,n->nan,depth+1)) return false; } else if(p->kind==P_FNEG){ if(!refineF(S,p->a,-n->fhi,-n->flo,n->nan,depth+1)) return false; } else if(p->kind==P_CASTF&&p->a->k==FLT){ if(p->a->w==32&&v->w==64){ if(!refineF(S,p->a,nextafterf((float)n->flo,-INFINITY),nextafterf((float)n->fhi,INFINITY),n->nan,depth+1)) return false; } } 
    else if(p->kind==P_ITE){ V x=rd(S,p->b),y=rd(S,p->c); auto comp=[&](const V&q){ return q->k==FLT&&((q->nan&&n->nan)||(q->flo<=q->fhi&&n->flo<=n->fhi&&q->fhi>=n->flo&&q->flo<=n->fhi)); }; bool ix=comp(x),iy=comp(y); if(!ix&&!iy) return false; if(!ix){ if(!assume(S,p->a,false,depth+1)) return false; } else if(!iy){ if(!assume(S,p->a,true,depth+1)) return false; } } }
  return true;
}
static bool assume(State&S,const V&c,bool t,int depth){
  if(depth>40) return true; if(single(c)) return (c->lo!=0)==t; u32 f=formsOf(c.p)[0]; if(f==FU) f=fSym(symForVid(c->vid,c->dep)); int k=knownForm(S,f); if(k>=0) { if((k!=0)!=t) return false; } else S.known.push_back({f&~1u,t!=(bool)(f&1)});
  if(!c->pv) return true; Prov*p=c->pv.p;
  if(p->kind==P_ICMP){ V a=rd(S,p->a),b=rd(S,p->b); if(a->k!=INT||b->k!=INT) return true; u32 pr=p->op; if(!t) pr=CmpInst::getInversePredicate((CmpInst::Predicate)pr);
    switch(pr){ case CmpInst::ICMP_EQ: { i64 l=std::max(a->lo,b->lo),h=std::min(a->hi,b->hi); if(l>h) return false; return refineI(S,p->a,l,h,depth+1)&&refineI(S,p->b,l,h,depth+1); }
      case CmpInst::ICMP_NE: if(single(b)){ if(a->lo==b->lo&&a->lo==a->hi) return false; if(a->lo==b->lo) return refineI(S,p->a,a->lo+1,a->hi,depth+1); if(a->hi==b->lo) return refineI(S,p->a,a->lo,a->hi-1,depth+1);
            if(p->a->pv&&p->a->pv->kind==P_ITE){ V x=rd(S,p->a->pv->b),y=rd(S,p->a->pv->c); if(single(x)&&x->lo==b->lo) { if(!assume(S,p->a->pv->a,false,depth+1)) return false; } else if(single(y)&&y->lo==b->lo){ if(!assume(S,p->a->pv->a,true,depth+1)) return false; } } }
          else if(single(a)){ if(b->lo==a->lo) return refineI(S,p->b,b->lo+1,b->hi,depth+1); if(b->hi==a->lo) return refineI(S,p->b,b->lo,b->hi-1,depth+1); } return true;
      case CmpInst::ICMP_ULT: case CmpInst::ICMP_ULE: case CmpInst::ICMP_UGT: case CmpInst::ICMP_UGE: {
          if(a->lo>=0&&b->lo>=0){ switch(pr){case CmpInst::ICMP_ULT: pr=CmpInst::ICMP_SLT;break;case CmpInst::ICMP_ULE: pr=CmpInst::ICMP_SLE;break;case CmpInst::ICMP_UGT: pr=CmpInst::ICMP_SGT;break;default: pr=CmpInst::ICMP_SGE;} }
          else if(b->lo>=0&&(pr==CmpInst::ICMP_ULT||pr==CmpInst::ICMP_ULE)){ return refineI(S,p->a,0,pr==CmpInst::ICMP_ULT?b->hi-1:b->hi,depth+1); }
          else if(a->lo>=0&&(pr==CmpInst::ICMP_UGT||pr==CmpInst::ICMP_UGE)){ return refineI(S,p->b,0,pr==CmpInst::ICMP_UGT?a->hi-1:a->hi,depth+1); } else return true; }
      default: break; }
    switch(pr){ case CmpInst::ICMP_SLT: if(b->hi==INT64_MIN||a->lo==INT64_MAX) return false; return refineI(S,p->a,INT64_MIN,b->hi-1,depth+1)&&refineI(S,p->b,a->lo+1,INT64_MAX,depth+1);
      case CmpInst::ICMP_SLE: return refineI(S,p->a,INT64_MIN,b->hi,depth+1)&&refineI(S,p->b,a->lo,INT64_MAX,depth+1);
      case CmpInst::ICMP_SGT: if(b->lo==INT64_MAX||a->hi==INT64_MIN) return false; return refineI(S,p->a,b->lo+1,INT64_MAX,depth+1)&&refineI(S,p->b,INT64_MIN,a->hi-1,depth+1);
      case CmpInst::ICMP_SGE: return refineI(S,p->a,b->lo,INT64_MAX,depth+1)&&refineI(S,p->b,INT64_MIN,a->hi,depth+1); default: return true; } }
  if(p->kind==P_FCMP){ V a=rd(S,p->a),b=rd(S,p->b); if(a->k!=FLT||b->k!=FLT) return true; u32 m=p->op; if(!t) m=(~m)&15; if(!m) return false; bool un=m&8,eq=m&1,gt=m&2,lt=m&4; bool ae=a->flo>a->fhi,be=b->flo>b->fhi; u32 w=a->w;
    auto up=[&](double x){ return w==32?(double)nextafterf((float)x,INFINITY):nextafter(x,INFINITY); }; auto dn=[&](double x){ return w==32?(double)nextafterf((float)x,-INFINITY):nextafter(x,-INFINITY); };
    double al=-INFINITY,ah=INFINITY,bl=-INFINITY,bh=INFINITY; if(!be){ if(!gt) { ah=eq?b->fhi:dn(b->fhi); } if(!lt) { al=eq?b->flo:up(b->flo);} } if(!ae){ if(!gt){ bl=eq?a->flo:up(a->flo);} if(!lt){ bh=eq?a->fhi:dn(a->fhi);} }
    if(!eq&&!gt&&!lt){ al=bl=1;ah=bh=0; if(!b->nan) return refineF(S,p->a,1,0,true,depth+1); if(!a->nan) return refineF(S,p->b,1,0,true,depth+1); return true; }
    if(un){ // ordered bounds apply only if the other side is not NaN
      if(b->nan){ al=-INFINITY;ah=INFINITY;} if(a->nan){ bl=-INFINITY;bh=INFINITY;} }
    return refineF(S,p->a,al,ah,un,depth+1)&&refineF(S,p->b,bl,bh,un,depth+1); }
  if(p->kind==P_ITE){ V x=rd(S,p->b),y=rd(S,p->c); auto comp=[&](const V&q){ if(single(q)) return (q->lo!=0)==t; u32 g=formsOf(q.p)[0]; int kk=knownForm(S,g); return kk<0||(kk!=0)==t; }; bool ix=comp(x),iy=comp(y); if(!ix&&!iy) return false; if(!ix) return assume(S,p->a,false,depth+1)&&assume(S,p->c,t,depth+1); if(!iy) return assume(S,p->a,true,depth+1)&&assume(S,p->b,t,depth+1); }
  return true;
}

// ---------- merging ----------
// condition under which a path is taken, relative to the point the paths were opened at
static u32 pathForm(u32 p){ if(!p) return 1; static std::unordered_map<u32,u32> memo; auto it=memo.find(p); if(it!=memo.end()) return it->second; Node n=NT.n[p]; u32 r; if(n.op==N_PATH){ r=fAnd(pathForm(n.a),n.c?n.b:(n.b^1)); } else if(n.op==N_PATH+5000) r=fXor(pathForm(n.a),pathForm(n.b)); else if(n.op==N_PATH+5001) r=fAnd(pathForm(n.a),pathForm(n.b)); else r=FU; return memo[p]=r; }
static u32 selForm(const State&A,const State&B){ if(A.path!=B.path){ u32 f=pathForm(A.path),g=pathForm(B.path); if(f!=FU&&g!=FU&&f>1&&f!=g){ if(g<2) return f; // equal up to the complement when the two cover everything
      return f; } } if(A.path==B.path) return fSym(symForVid(NT.fresh(),depUnion(A.pathdep,B.pathdep))); return fSym(symForVid(NT.get(N_PSEL,A.path,B.path),depUnion(A.pathdep,B.pathdep))); }
static Ref<Obj> joinObj(State&SA,State&SB,const Ref<Obj>&a,const Ref<Obj>&b,u32 id,u32 c,u32 cd,const V*cv){
  Ref<Obj> r=newObj(a->n); std::map<std::pair<void*,void*>,V> memo;
  for(u32 ci=0;ci<a->c.size();ci++){ if(a->c[ci]==b->c[ci]){ r->c[ci]=a->c[ci]; } }
  for(u32 ci=0;ci<a->c.size();ci++){ if(a->c[ci]==b->c[ci]) continue; u32 off=ci*64,end=std::min<u32>(off+64,a->n);
    while(off<end){ const Ent*x=entAt(a.p,off),*y=entAt(b.p,off); 
      if(!x&&!y){ off++; continue; }
      if(x&&y&&x->v.p==y->v.p&&x->bi==y->bi){ Chunk*w=wchunk(r.p,off>>6); w->e[off&63]=*x; off++; continue; }
      u32 m=0; const Ent*g=nullptr; if(x&&x->bi==0) {g=x;m=(x->v->w+7)/8;} if(y&&y->bi==0&&(!g||(y->v->w+7)/8>m||((y->v->w+7)/8==m&&g->v->k==INT&&(y->v->k==FLT||y->v->k==PTR)&&single(g->v)&&g->v->lo==0))) {g=y;m=(y->v->w+7)/8;}
      if(g&&m<=8&&off+m<=a->n){ V t=g->v; u8 tk=t->k==FLT?T_FLT:t->k==PTR?T_PTR:T_INT; if(t->k==UNDEF){ const Ent*o=g==x?y:x; if(o&&o->bi==0&&(o->v->w+7)/8==m) tk=o->v->k==FLT?T_FLT:o->v->k==PTR?T_PTR:T_INT; }
        V p=readVal(a.p,id,off,tk,t->w,0,0,0),q=readVal(b.p,id,off,tk,t->w,0,0,0); if(p->k==VEC||q->k==VEC){ goto bytes; } V j=joinVal(rd(SA,p),rd(SB,q),c,cd,cv); for(u32 i=0;i<m;i++){ Chunk*w=wchunk(r.p,(off+i)>>6); w->e[(off+i)&63].v=j; w->e[(off+i)&63].bi=i; } off+=m; continue; }
      bytes: { V j=joinVal(byteAt(a.p,id,off),byteAt(b.p,id,off),c,cd,nullptr); Chunk*w=wchunk(r.p,off>>6); w->e[off&63].v=j; w->e[off&63].bi=0; off++; } } }
  return r; }
static State merge2(State&A,State&B,u32 c,u32 cd,const V*cv,const std::vector<u64>*live){
  State R; R.path=A.path; R.pathdep=depUnion(A.pathdep,B.pathdep); R.fobjs=A.fobjs; R.frozen=A.frozen;
  size_t i=0; while(i<A.facts.size()&&i<B.facts.size()&&A.facts[i].first==B.facts[i].first&&A.facts[i].second==B.facts[i].second) i++; R.facts.assign(A.facts.begin(),A.facts.begin()+i); R.bloom=0; for(auto&f:R.facts) R.bloom|=1ull<<(f.first&63);
  i=0; while(i<A.known.size()&&i<B.known.size()&&A.known[i]==B.known[i]) i++; R.known.assign(A.known.begin(),A.known.begin()+i);
  size_t x=0,y=0; R.mem.reserve(std::max(A.mem.size(),B.mem.size()));
  while(x<A.mem.size()||y<B.mem.size()){
    if(y>=B.mem.size()||(x<A.mem.size()&&A.mem[x].first<B.mem[y].first)){ if(OBJ[A.mem[x].first].heap||OBJ[A.mem[x].first].stack) R.mem.push_back(A.mem[x]); x++; continue; }
    if(x>=A.mem.size()||B.mem[y].first<A.mem[x].first){ if(OBJ[B.mem[y].first].heap||OBJ[B.mem[y].first].stack) R.mem.push_back(B.mem[y]); y++; continue; }
    if(A.mem[x].second==B.mem[y].second) R.mem.push_back(A.mem[x]); else R.mem.push_back({A.mem[x].first,joinObj(A,B,A.mem[x].second,B.mem[y].second,A.mem[x].first,c,cd,cv)}); x++;y++; }
  for(u32 id:B.fobjs) if(std::find(R.fobjs.begin(),R.fobjs.end(),id)==R.fobjs.end()) R.fobjs.push_back(id);
  R.regs.resize(A.regs.size()); for(size_t k=0;k<A.regs.size();k++){ if(live&&!((*live)[k>>6]>>(k&63)&1)) continue; const V&p=A.regs[k],&q=B.regs[k]; if(!p||!q) continue; R.regs[k]= p==q?p:joinVal(rd(A,p),rd(B,q),c,cd,cv); }
  if(A.ret&&B.ret) R.ret=A.ret==B.ret?A.ret:joinVal(A.ret,B.ret,c,cd,cv);
  return R; }

#include "sem.inc"
#include "exec.inc"
