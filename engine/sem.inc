// ---------- semantic comparison of two value identities ----------
// Decides whether two value numbers denote the same (for floats: the same up to the rounding of an equivalent
// real-arithmetic expression) value: conditional values are compared branch by branch under the accumulated
// conditions, linear arithmetic is normalised, opaque operations are compared operand by operand.
static const u32 N_UF=40; static u32 modelId(const std::string&);
static std::map<std::string,u32> UFN; static std::vector<std::string> UFNAMES;
extern std::vector<u32> SYMVID;   // symbol -> value number it names (0 for inputs)
struct Sem {
  double tol=2e-6; u64 steps=0,limit=1000000; std::map<u32,bool> K; u32 pick=FU; bool over=false; std::set<u32> busy;
  // which of the assumptions made by split() the answer in progress rests on (bit per split, outermost first)
  std::vector<std::pair<u32,bool>> stk; u32 used=0; void use(u32 s){ for(size_t i=0;i<stk.size();i++) if(stk[i].first==s) used|=1u<<i; }
  static u32 op(u32 v){ return NT.n[v].op; }
  // value of a symbol under K, -1 unknown; `pick` gets an unknown primitive symbol
  struct SymM { int r; u32 used,pk; }; std::vector<std::unordered_map<u32,SymM>> sm=std::vector<std::unordered_map<u32,SymM>>(1);
  int sym(u32 s,int d){
    auto it=K.find(s); if(it!=K.end()){ use(s); return it->second; } if(!SYMVID[s]||busy.count(s)){ if(pick==FU) pick=s; return -1; }
    for(int i=(int)sm.size()-1;i>=0;i--){ auto h=sm[i].find(s); if(h!=sm[i].end()&&(i==(int)sm.size()-1||h->second.r>=0)){ used|=h->second.used; if(h->second.r<0&&pick==FU) pick=h->second.pk; return h->second.r; } }
    u32 su=used,sp=pick; used=0; pick=FU; int r=sym1(s,d); if(r>=0||(busy.empty()&&d<40&&!over)) sm.back()[s]={r,used,pick}; used|=su; if(sp!=FU) pick=sp; return r; }
  int sym1(u32 s,int d){ u32 v=SYMVID[s]; if(v){ Node n=NT.n[v];
      if(n.op==N_BITS+1000){ int a=form(n.a,d+1); if(a==0) return 0; int b=form(n.b,d+1); if(b==0) return 0; if(a==1&&b==1) return 1; return -1; }
      int t=theory(n); if(t>=0) return t;
      if(deep&&d<60){ int q=atom(n,v,d); if(q>-2) return q; }
      if((n.op==N_BIN+900||n.op==N_BIN+902)&&d<60){ int q=iatom(n,v,d); if(q>-2) return q; }
      if(d<40&&!busy.count(s)){ busy.insert(s); std::vector<std::pair<u32,bool>> kk(K.begin(),K.end()); for(auto&k:kk){ u32 kv=SYMVID[k.first]; if(kv&&kv!=v&&op(kv)==n.op&&n.op>=N_BIN+900&&n.op<N_BIN+1000){ std::map<u32,bool> none; if(sameOperands(v,kv,d+20)){ busy.erase(s); use(k.first); return k.second; } } } busy.erase(s); } }
    if(pick==FU) pick=s; return -1; }
  int form(u32 f,int d=0){ if(f<2) return (int)f; if(f==FU||d>60) return -1; int r=f&1; bool unk=false; for(u32 s:SETS.v[f>>1]){ int x=sym(s,d); if(x<0) unk=true; else r^=x; } return unk?-1:r; }
  static bool cval(u32 v,double&x){ Node n=NT.n[v]; if(n.op==N_CI){ x=(double)sx(n.b|((u64)n.c<<32),n.a); return true; } if(n.op==N_CF){ if(n.a==32){ float f; memcpy(&f,&n.b,4); x=f; if(n.c) x=NAN; } else { u64 u=n.b|((u64)n.c<<32); memcpy(&x,&u,8);} return true; } return false; }
  // comparisons of one value with constants decide each other
  // second attempt (deep): a comparison with a constant is taken apart along the conditional its operand is (|y| and min/max included), so the branches chosen there decide it; -2: nothing to take apart
  bool deep=false;
  int symPick(u32 s,int d){ int r=sym(s,d+1); if(r<0&&pick==FU) pick=s; return r; }
  int atom(const Node&n,u32 v,int d){ bool self=selfCmp(n); double c=0; u32 x; bool up=true,st=n.op==N_BIN+914; if(self) x=n.a; else { if(n.op!=N_BIN+914&&n.op!=N_BIN+915) return -2; if(cval(n.b,c)) x=n.a; else if(cval(n.a,c)){ x=n.b; up=false; } else return -2; }
    u32 x0=x; bool flip=false; for(int i=0;i<20;i++){ x=simp(x); Node m=NT.n[x]; if(m.op==N_MODEL&&m.a==2){ x=m.b; flip=!flip; continue; } if(m.op==N_MODEL&&m.a==1){ if(self){ x=m.b; continue; } int neg=symPick(symForVid(NT.get(N_BIN+914,m.b,fconst(0)),0),d); if(neg<0) return -1; if(neg) flip=!flip; x=m.b; continue; } break; }
    double e; if(cval(x,e)){ if(self) return !std::isnan(e); if(flip) e=-e; return up?(st?e<c:e<=c):(st?c<e:c<=e); }
    if(op(x)==N_ITE){ u32 f=NT.n[x].a; int r=form(f,d+1); if(r<0) return -1; return -2; }
    if(x==x0) return -2; u32 q; if(self) q=NT.get(N_BIN+911,x,x); else { if(flip){ c=-c; up=!up; } u32 k=fconst(c); q=up?NT.get(n.op,x,k):NT.get(n.op,k,x); } if(q==v) return -2; return symPick(symForVid(q,0),d); }
  // an integer conditional compared with a constant: the branch chosen there decides
  int iatom(const Node&n,u32 v,int d){ double c,e; bool l=cval(n.b,c); if(!l&&!cval(n.a,c)) return -2; u32 x=l?n.a:n.b; if(op(x)!=N_ITE) return -2; u32 sp=pick; x=simp(x); pick=sp; if(cval(x,e)) return n.op==N_BIN+900?e==c:l?e<c:c<e;
    if(op(x)==N_ITE){ if(form(NT.n[x].a,d+1)<0) return -1; return -2; } u32 q=l?NT.get(n.op,x,n.b):NT.get(n.op,n.a,x); if(q==v) return -2; return symPick(symForVid(q,0),d); }
  static u32 fconst(double c){ float f=(float)c; u32 u; memcpy(&u,&f,4); return NT.get(N_CF,32,u); }
  // a comparison that holds has no NaN operand, and one with a NaN operand does not hold
  static bool selfCmp(const Node&n){ return (n.op==N_BIN+910||n.op==N_BIN+911)&&n.a==n.b; }
  int ordered(u32 x){ std::vector<std::pair<u32,u32>> q; for(auto&k:K) if(k.second){ u32 kv=SYMVID[k.first]; if(!kv) continue; Node m=NT.n[kv]; if(m.op!=N_BIN+914&&m.op!=N_BIN+915&&!selfCmp(m)) continue; double e; if(!cval(m.a,e)) q.push_back({k.first,m.a}); if(!cval(m.b,e)) q.push_back({k.first,m.b}); } for(auto&t:q) if(t.second==x||sameVal_(x,t.second)){ use(t.first); return 1; } return -1; }
  bool isNan(u32 x){ std::vector<std::pair<u32,u32>> q; for(auto&k:K) if(!k.second){ u32 kv=SYMVID[k.first]; if(kv&&selfCmp(NT.n[kv])) q.push_back({k.first,NT.n[kv].a}); } for(auto&t:q) if(t.second==x||sameVal_(x,t.second)){ use(t.first); return true; } return false; }
  int theory(const Node&n){ if(selfCmp(n)) return ordered(n.a); if(n.op==N_BIN+914||n.op==N_BIN+915) return ftheory(n); if(n.op!=N_BIN+902&&n.op!=N_BIN+900) return -1; double c; u32 x; bool lt=n.op!=N_BIN+900; bool rev=false; if(cval(n.b,c)) x=n.a; else if(cval(n.a,c)){ x=n.b; rev=true; } else return -1; if(lt&&rev) return -1;
    double lo=-1e300,hi=1e300; for(auto&k:K){ u32 kv=SYMVID[k.first]; if(!kv) continue; Node m=NT.n[kv]; double e; if(m.op==N_BIN+902){ if(m.a==x&&cval(m.b,e)){ use(k.first); if(k.second) hi=std::min(hi,e-1); else lo=std::max(lo,e);} } else if(m.op==N_BIN+900&&k.second){ u32 y; if(cval(m.b,e)) y=m.a; else if(cval(m.a,e)) y=m.b; else continue; if(y==x){ use(k.first); lo=std::max(lo,e);hi=std::min(hi,e);} } }
    if(lt){ if(hi<c) return 1; if(lo>=c) return 0; } else { if(c<lo||c>hi) return 0; if(lo==hi&&lo==c) return 1; } return -1; }
  // x<c / c<x (914) and x<=c / c<=x (915) on floats, one known outcome deciding another
  bool sameVal_(u32 x,u32 y){ if(x==y) return true; if(inSame>=3||fpEq(x,y)!=1) return false; inSame++; u32 sp=pick; bool r=eq(x,y,40); pick=sp; inSame--; return r; } int inSame=0;
  // what the assumptions say about the range of a float (ordered, as in real arithmetic); `rel` collects the assumptions used
  struct Rng { double lo=-INFINITY,hi=INFINITY; bool ls=false,hs=false; };
  Rng range(u32 x,std::vector<u32>*rel){ Rng r; struct Q { u32 s,y; double e; bool up,st; }; std::vector<Q> q; /* sameVal_ may change K */
    for(auto&k:K){ u32 kv=SYMVID[k.first]; if(!kv) continue; Node m=NT.n[kv]; if(m.op!=N_BIN+914&&m.op!=N_BIN+915) continue; Q t; if(cval(m.b,t.e)){ t.y=m.a; t.up=true; } else if(cval(m.a,t.e)){ t.y=m.b; t.up=false; } else continue; t.s=k.first; t.st=m.op==N_BIN+914; if(!k.second){ t.up=!t.up; t.st=!t.st; } q.push_back(t); }
    for(auto&t:q){ if(!sameVal_(x,t.y)) continue; if(rel) rel->push_back(t.s); double e=t.e; if(t.up){ if(e<r.hi||(e==r.hi&&t.st)){ r.hi=e; r.hs=t.st; } } else if(e>r.lo||(e==r.lo&&t.st)){ r.lo=e; r.ls=t.st; } } return r; }
  // range of a converted integer from its structure: constants, sums, and conditionals on comparisons with constants (each branch under its own condition)
  struct IB { u32 z; double lo,hi; };
  bool ibound(u32 v,std::vector<IB>&as,double&lo,double&hi,int d,bool w32=false){ double c; if(d>12) return false; if(cval(v,c)){ lo=hi=c; return true; } Node n=NT.n[v];
    if(n.op==N_BIN+Instruction::Add&&n.c==32){ double l1,h1,l2,h2; if(!ibound(n.a,as,l1,h1,d+1,true)||!ibound(n.b,as,l2,h2,d+1,true)) return false; lo=l1+l2; hi=h1+h2; return lo>=-2147483648.0&&hi<=2147483647.0; }
    if(n.op==N_ITE&&n.a>1&&n.a!=FU&&SETS.v[n.a>>1].size()==1){ bool inv=n.a&1; u32 s=SETS.v[n.a>>1][0],sv=SYMVID[s]; if(!sv) return false; Node m=NT.n[sv]; double e; size_t k=as.size(); bool cmp=m.op==N_BIN+902&&cval(m.b,e); double l1,h1,l2,h2; for(int br=0;br<2;br++){ bool holds=(br==0)!=inv; if(cmp) as.push_back({m.a,holds?-1e300:e,holds?e-1:1e300}); bool ok=ibound(br?n.c:n.b,as,br?l2:l1,br?h2:h1,d+1,w32); as.resize(k); if(!ok) return false; } lo=std::min(l1,l2); hi=std::max(h1,h2); for(auto&t:as) if(t.z==v){ lo=std::max(lo,t.lo); hi=std::min(hi,t.hi); } return true; }
    lo=w32?-2147483648.0:-9.3e18; hi=w32?2147483647.0:9.3e18; for(auto&t:as) if(t.z==v){ lo=std::max(lo,t.lo); hi=std::min(hi,t.hi); } return true; }
  // x<y with y bounded by the assumptions and x a converted integer (or the reverse): decided when it cannot hold, which a NaN does not change
  bool convRange(u32 v,double&lo,double&hi){ Node n=NT.n[v]; std::vector<IB> as; if(n.op!=N_CAST||n.b!=9106) return false; return ibound(n.a,as,lo,hi,0); }
  int twoRange(const Node&n){ double lo,hi; bool st=n.op==N_BIN+914; if(simpDepth>=4) return -1; std::vector<u32> rel; bool no=false; simpDepth++; u32 sp=pick; if(convRange(n.a,lo,hi)){ Rng r=range(n.b,&rel); no=r.hi<lo||(r.hi==lo&&(st||r.hs)); } else if(convRange(n.b,lo,hi)){ Rng r=range(n.a,&rel); no=r.lo>hi||(r.lo==hi&&(st||r.ls)); } pick=sp; simpDepth--; if(!no) return -1; for(u32 s:rel) use(s); return 0; }
  int simpDepth=0;
  // the assumptions made on this branch cannot all hold
  bool contradiction(){ std::vector<std::pair<u32,bool>> st=stk; for(auto&t:st){ u32 v=SYMVID[t.first]; if(!v) continue; Node n=NT.n[v]; if(n.op!=N_BIN+914&&n.op!=N_BIN+915) continue; K.erase(t.first); int r=ftheory(n); K[t.first]=t.second; if(r>=0&&r!=(int)t.second){ used=~0u; return true; } } return false; }
  int ftheory(const Node&n){ double c; u32 x; bool up; if(cval(n.b,c)){ x=n.a; up=true; } else if(cval(n.a,c)){ x=n.b; up=false; } else return twoRange(n); bool st=n.op==N_BIN+914; if(simpDepth<4){ simpDepth++; u32 sp=pick; x=simp(x); pick=sp; simpDepth--; } double xc; if(cval(x,xc)) return up?(st?xc<c:xc<=c):(st?c<xc:c<=xc); std::vector<u32> rel; Rng r=range(x,&rel); int a=-1;
    if(up){ if(r.hi<c||(r.hi==c&&(!st||r.hs))) a=1; else if(r.lo>c||(r.lo==c&&(st||r.ls))) a=0; } else { if(r.lo>c||(r.lo==c&&(!st||r.ls))) a=1; else if(r.hi<c||(r.hi==c&&(st||r.hs))) a=0; }
    if(deep&&a==1){ bool pos=false; for(u32 s:rel){ auto k=K.find(s); if(k!=K.end()&&k->second) pos=true; } if(!pos&&ordered(x)!=1) a=-1; } /* !(x<c) does not make a NaN larger */
    for(u32 s:rel) use(s); if(a<0&&isNan(x)) a=0; return a; }
  // values the assumptions leave exactly one choice for
  struct Pin { u32 x; double c; std::vector<u32> rel; }; std::vector<Pin> pins;
  bool pinFor(u32 s){ u32 v=SYMVID[s]; if(!v) return false; Node n=NT.n[v]; if(n.op!=N_BIN+914&&n.op!=N_BIN+915) return false; double c; u32 x; if(cval(n.b,c)) x=n.a; else if(cval(n.a,c)) x=n.b; else return false; std::vector<u32> rel; Rng r=range(x,&rel); if(r.lo!=r.hi||r.ls||r.hs) return false; pins.push_back({x,r.lo,rel}); return true; }
  u32 pinned(u32 v){ double c; if(pins.empty()||cval(v,c)||!isFl(v)) return 0; std::vector<Pin> sp; sp.swap(pins); const Pin*h=nullptr; for(auto&p:sp) if(v==p.x||sameVal_(v,p.x)){ h=&p; break; } u32 r=0; if(h){ for(u32 s:h->rel) use(s); float f=(float)h->c; u32 u; memcpy(&u,&f,4); r=NT.get(N_CF,32,u); } pins.swap(sp); return r; }
  static bool isFl(u32 v){ u32 o=op(v); return isF(o)||o==N_MODEL||o==N_FRESH||o==N_ITE||o==N_LOOK; }
  // x<0 ? -x : x and its mirror images are |x|
  static bool negOf(u32 a,u32 b){ Node n=NT.n[a]; double c; return (n.op==N_MODEL&&n.a==2&&n.b==b)||(n.op==N_BIN+Instruction::FSub&&n.b==b&&cval(n.a,c)&&c==0); }
  static u32 absIte(const Node&n){ if(n.a<2||n.a==FU) return 0; auto&s=SETS.v[n.a>>1]; if(s.size()!=1||!SYMVID[s[0]]) return 0; Node m=NT.n[SYMVID[s[0]]]; if(m.op!=N_BIN+914&&m.op!=N_BIN+915) return 0; u32 t=n.b,f=n.c; if(n.a&1) std::swap(t,f); double c; u32 x; bool low; if(cval(m.b,c)&&c==0){ x=m.a; low=true; } else if(cval(m.a,c)&&c==0){ x=m.b; low=false; } else return 0;
    u32 neg=low?t:f,pos=low?f:t; return pos==x&&negOf(neg,x)?NT.get(N_MODEL,1,x):0; }
  u32 simp(u32 v){ for(int i=0;i<200;i++){ if(u32 q=pinned(v)) return q; Node n=NT.n[v]; if(n.op==N_MODEL&&n.c&&(n.a==idMin()||n.a==idMax())){ u32 a=n.b,b=n.c; double q; if(cval(a,q)) std::swap(a,b); /* the constant second */ bool mn=n.a==idMin(); u32 c=fSym(symForVid(mn?NT.get(N_BIN+914,a,b):NT.get(N_BIN+914,b,a),0)); v=NT.get(N_ITE,c,a,b); continue; } if(n.op==N_ITE){ int c=form(n.a); if(c<0){ u32 q=absIte(n); return q?q:v; } v=c?n.b:n.c; continue; } if(n.op==N_CAST&&(n.b==9104||n.b==9105)){ u32 q=simp(n.a); return q; } break; } return v; }
  static u32 idMin(){ static u32 i=modelId("fmin"); return i; } static u32 idMax(){ static u32 i=modelId("fmax"); return i; } static u32 idSqrt(){ static u32 i=modelId("sqrt"); return i; }
  bool isIte(u32 v){ return op(v)==N_ITE; }
  struct Mono { std::vector<std::pair<u32,int>> m; double c; };
  static bool isI(u32 v){ u32 o=NT.n[v].op; return o==N_BIN+Instruction::Add||o==N_BIN+Instruction::Sub||o==N_BIN+Instruction::Mul; }
  static bool isF(u32 o){ return o==N_BIN+Instruction::FAdd||o==N_BIN+Instruction::FSub||o==N_BIN+Instruction::FMul||o==N_BIN+Instruction::FDiv; }
  static void addMono(std::vector<Mono>&l,const Mono&x){ for(auto&y:l) if(y.m==x.m){ y.c+=x.c; return; } l.push_back(x); }
  // linear normal form; unresolved conditionals are reported through `ite`
  bool lin(u32 v0,double k,std::vector<Mono>&out,u32&ite,int d,bool inSum=false){ u32 o=op(v0); if(!isF(o)&&o!=N_BIN+Instruction::Add&&o!=N_BIN+Instruction::Sub&&o!=N_BIN+Instruction::Mul) return lin1(v0,k,out,ite,d);
    auto&L_=pins.empty()?lm:lmp; LinM*hit=nullptr; for(int i=(int)L_.size()-1;i>=(pins.empty()?0:(int)L_.size()-1)&&!hit;i--){ auto&lm=L_; auto it=lm[i].find(v0); if(it!=lm[i].end()&&(i==(int)lm.size()-1||!it->second.ite)) hit=&it->second; }
    if(!hit&&inSum&&(o==N_BIN+Instruction::FAdd||o==N_BIN+Instruction::FSub)) return lin1(v0,k,out,ite,d);
    if(!hit){ LinM x; u32 su=used; used=0; bool r=lin1(v0,1,x.l,x.ite,d); x.used=used; used|=su; if(!r) return false; auto&L2=pins.empty()?lm:lmp; int lv=(int)L2.size()-1; if(pins.empty()&&!x.ite) while(lv>0&&!(x.used>>(lv-1)&1)) lv--; hit=&(L2[lv][v0]=std::move(x)); }
    used|=hit->used; if(hit->ite&&!ite) ite=hit->ite; if(out.empty()){ out=hit->l; if(k!=1) for(auto&t:out) t.c*=k; } else for(auto&t:hit->l) addMono(out,{t.m,t.c*k}); return true; }
  struct LinM { std::vector<Mono> l; u32 ite=0,used=0; }; std::vector<std::unordered_map<u32,LinM>> lm=std::vector<std::unordered_map<u32,LinM>>(1),lmp=lm;
  bool lin1(u32 v0,double k,std::vector<Mono>&out,u32&ite,int d){ if(++steps>limit){ over=true; return false; } u32 v=simp(v0); Node n=NT.n[v]; double c; if(cval(v,c)){ addMono(out,{{},c*k}); return true; } if(d>300){ addMono(out,{{{v,1}},k}); return true; }
    if(n.op==N_ITE){ if(!ite) ite=v; addMono(out,{{{v,1}},k}); return true; }
    if(n.op==N_BIN+Instruction::FAdd||n.op==N_BIN+Instruction::Add) return lin(n.a,k,out,ite,d+1,true)&&lin(n.b,k,out,ite,d+1,true);
    if(n.op==N_BIN+Instruction::FSub||n.op==N_BIN+Instruction::Sub) return lin(n.a,k,out,ite,d+1,true)&&lin(n.b,-k,out,ite,d+1,true);
    if(n.op==N_MODEL&&n.a==2) return lin(n.b,-k,out,ite,d+1);
    if(n.op==N_CAST&&(n.b==9101||n.b==9102||n.b==9106)) return lin(n.a,k,out,ite,d+1);
    if(n.op==N_BIN+Instruction::FMul||n.op==N_BIN+Instruction::Mul||n.op==N_BIN+Instruction::FDiv){ bool dv=n.op==N_BIN+Instruction::FDiv; std::vector<Mono> a,b; if(!lin(n.a,1,a,ite,d+1)||!lin(n.b,1,b,ite,d+1)) return false; clean(a); clean(b);
      if(b.size()==1&&b[0].m.empty()){ double q=dv?1/b[0].c:b[0].c; for(auto&t:a) addMono(out,{t.m,t.c*k*q}); return true; } if(!dv&&a.size()==1&&a[0].m.empty()){ for(auto&t:b) addMono(out,{t.m,t.c*k*a[0].c}); return true; }
      if(a.empty()&&!dv) return true; if(b.empty()&&!dv) return true;
      if(dv&&a.size()>1&&b.size()>1&&eq(n.a,n.b,d+1)){ addMono(out,{{},k}); return true; }
      Mono r; r.c=k; if(a.size()==1){ r.m=a[0].m; r.c*=a[0].c; } else r.m.push_back({peel(n.a,r.c,false),1}); if(b.size()==1){ r.c=dv?r.c/b[0].c:r.c*b[0].c; for(auto p:b[0].m) mulAtom(r.m,p.first,dv?-p.second:p.second); } else { u32 pb=peel(n.b,r.c,dv); mulAtom(r.m,pb,dv?-1:1); } std::sort(r.m.begin(),r.m.end()); addMono(out,r); return true; }
    // sqrt(c*x) and sqrt(c/x) with a positive constant c
    if(n.op==N_MODEL&&n.a==idSqrt()){ double q=1; int e=1; u32 x=peel(n.b,q,false); Node m=NT.n[x]; double cc; if(m.op==N_BIN+Instruction::FDiv&&cval(m.a,cc)&&cc>0){ q*=cc; e=-1; double q2=1; x=peel(m.b,q2,true); q*=q2; } if(q>0&&(q!=1||e<0)){ addMono(out,{{{NT.get(N_MODEL,idSqrt(),x),e}},k*std::sqrt(q)}); return true; } }
    addMono(out,{{{v,1}},k}); return true; }
  // v without constant factors, which go to k
  u32 peel(u32 v,double&k,bool inv){ for(int i=0;i<50;i++){ v=simp(v); Node n=NT.n[v]; double c; if(n.op==N_MODEL&&n.a==2){ k=-k; v=n.b; continue; } if(n.op==N_BIN+Instruction::FMul){ if(cval(n.b,c)&&c!=0){ k=inv?k/c:k*c; v=n.a; continue; } if(cval(n.a,c)&&c!=0){ k=inv?k/c:k*c; v=n.b; continue; } } if(n.op==N_BIN+Instruction::FDiv&&cval(n.b,c)&&c!=0){ k=inv?k*c:k/c; v=n.a; continue; } break; } return v; }
  static void mulAtom(std::vector<std::pair<u32,int>>&m,u32 v,int e){ for(size_t i=0;i<m.size();i++) if(m[i].first==v){ m[i].second+=e; if(!m[i].second) m.erase(m.begin()+i); return; } m.push_back({v,e}); }
  static void clean(std::vector<Mono>&l){ double mx=0; for(auto&t:l) mx=std::max(mx,std::fabs(t.c)); std::vector<Mono> r; for(auto&t:l) if(std::fabs(t.c)>1e-12*mx&&t.c!=0) r.push_back(t); l.swap(r); }
  bool close(double x,double y,double scale=0){ if(x==y||(std::isnan(x)&&std::isnan(y))) return true; return std::fabs(x-y)<=tol*std::max(std::fabs(x),std::fabs(y)); }
  bool sameOperands(u32 a,u32 b,int d){ Node x=NT.n[a],y=NT.n[b]; if(x.op!=y.op) return false; if(x.op>=N_BIN+900){ u32 sp=pick; bool r=eq(x.a,y.a,d+1)&&(x.b==y.b||eq(x.b,y.b,d+1)); if(!r&&(x.op==N_BIN+900)) r=eq(x.a,y.b,d+1)&&eq(x.b,y.a,d+1); pick=sp; return r; } return false; }
  bool listEq(u32 a,u32 b,int d){ if(a==b) return true; auto&x=IDV.v[a];auto&y=IDV.v[b]; if(x.size()!=y.size()) return false; std::vector<u32> p=x,q=y; for(size_t i=0;i<p.size();i++) if(p[i]!=q[i]&&!eq(p[i],q[i],d+1)) return false; return true; }
  bool bitsEq(const std::vector<u32>&x,const std::vector<u32>&y,int d){ if(x.size()!=y.size()) return false; for(size_t i=0;i<x.size();i++){ if(x[i]==y[i]) continue; if(x[i]==FU||y[i]==FU) return false; u32 f=fXor(x[i],y[i]); u32 sp=pick; pick=FU; int r=form(f); u32 pk=pick; pick=sp; if(r==1) return false; if(r==0) continue; return split(pk,d,[&](int dd){ return bitsEq(x,y,dd); }); } return true; }
  template<class Fn_> bool split(u32 s,int d,Fn_ fn){ if(s==FU||stk.size()>28) return false; bool r=true; for(int b=0;b<2&&r;b++){ Bl lbit=fpLevelBits(s); K[s]=b; stk.push_back({s,b}); lb.push_back(lbit); fpm.emplace_back(); fpp.emplace_back(); lm.emplace_back(); lmp.emplace_back(); sm.emplace_back(); bool pn=pinFor(s); r=fn(d+1); if(!r&&!over&&contradiction()) r=true; fpm.pop_back(); fpp.pop_back(); lm.pop_back(); lmp.pop_back(); sm.pop_back(); if(pn) pins.pop_back(); stk.pop_back(); lb.pop_back(); used&=(1u<<stk.size())-1; K.erase(s); } return r; }
  bool splitIte(u32 v,u32 a,u32 b,int d){ Node n=NT.n[v]; u32 sp=pick; pick=FU; int c=form(n.a); u32 pk=pick; pick=sp; if(c>=0) return eq(a,b,d+1); return split(pk,d,[&](int dd){ return eq(a,b,dd); }); }
  struct Memo { std::vector<std::vector<std::pair<u32,bool>>> ok; struct No { std::vector<std::pair<u32,bool>> k; int nest,busy; }; std::vector<No> no; };
  std::unordered_map<u64,Memo> memo;
  bool eq(u32 a0,u32 b0,int d=0){ u32 sp=pick; bool r=eq0(a0,b0,d); pick=sp; return r; }
  bool eq0(u32 a0,u32 b0,int d){ if(a0==b0) return true; if(d>400) return false; if(++steps>limit){ over=true; return false; }
    u32 su=used; used=0; u32 sp=pick; u32 a=simp(a0),b=simp(b0); pick=sp; if(a==b){ used|=su; return true; } u32 su2=used; used=0; u64 key=((u64)a<<32)|b;
    { auto it=memo.find(key); if(it!=memo.end()){ for(auto&c:it->second.ok){ bool h=true; for(auto&p:c){ auto k=K.find(p.first); if(k==K.end()||k->second!=p.second){ h=false; break; } } if(h){ for(auto&p:c) use(p.first); used|=su|su2; return true; } } for(auto&c:it->second.no) if(inSame>=c.nest&&(int)busy.size()>=c.busy&&c.k==stk){ used|=su|su2; return false; } } }
    if(!deep&&fpEq(a,b)==0){ used|=su|su2; return false; }
    bool r=eq1(a,b,d); static bool trace=getenv("AI_TRACE"); if(!r&&trace&&!over) { std::string ks; for(auto&k:K) ks+="\n      "+std::string(k.second?"+":"-")+(SYMVID[k.first]?showVid(SYMVID[k.first],4):"input"); fprintf(stderr,"NE d=%d %s  |  %s fp %g %g range %g %g  K:%s\n",d,showVid(a,3).c_str(),showVid(b,3).c_str(),fp(a),fp(b),range(a,nullptr).lo,range(a,nullptr).hi,ks.c_str()); }
    Memo&m=memo[key]; if(r){ std::vector<std::pair<u32,bool>> c; for(size_t i=0;i<stk.size();i++) if(used>>i&1) c.push_back(stk[i]); m.ok.push_back(c); } else if(!over) m.no.push_back({stk,inSame,(int)busy.size()}); used|=su|su2; return r; }
  // value of a term (under the current assumptions) at one fixed pseudo-random point: terms that differ there are not tried
  // an entry made under fewer assumptions holds as long as none of the later ones is about a condition (or a compared value) it looked at: fpB collects those as a 64-bit Bloom set
  struct Bl { u64 w[4]={0,0,0,0}; void operator|=(const Bl&o){ for(int i=0;i<4;i++) w[i]|=o.w[i]; } bool hits(const Bl&o) const { return (w[0]&o.w[0])|(w[1]&o.w[1])|(w[2]&o.w[2])|(w[3]&o.w[3]); } bool any() const { return w[0]|w[1]|w[2]|w[3]; } static Bl full(){ Bl b; for(auto&x:b.w) x=~0ull; return b; } };
  struct FpE { double r; Bl b; }; std::vector<std::unordered_map<u32,FpE>> fpm=std::vector<std::unordered_map<u32,FpE>>(1),fpp=fpm; std::vector<Bl> lb; Bl fpB;
  static std::unordered_map<u32,double>&fpPure(){ static std::unordered_map<u32,double> m; return m; }
  static Bl bit(u64 x){ x*=0x9E3779B97F4A7C15ull; Bl b; b.w[x>>62]=1ull<<(x>>56&63); return b; } static double qkey(double q){ return std::isnan(q)||q==0?-1e6:std::log2(std::fabs(q))*2000+(q<0?0.25:0); } static Bl qbit(double q){ return bit((u64)(i64)std::floor(qkey(q))^0x51ull<<40); } static Bl qbits(double q){ double k=qkey(q); Bl b=bit((u64)(i64)std::floor(k-0.3)^0x51ull<<40); b|=bit((u64)(i64)std::floor(k)^0x51ull<<40); b|=bit((u64)(i64)std::floor(k+0.3)^0x51ull<<40); return b; }
  Bl fpLevelBits(u32 s){ Bl r=bit(s); u32 v=SYMVID[s]; if(!v) return r; Node m=NT.n[v]; if(m.op!=N_BIN+914&&m.op!=N_BIN+915) return r; double e; u32 z; if(cval(m.b,e)) z=m.a; else if(cval(m.a,e)) z=m.b; else return r; Bl sb=fpB; double q=fp(z); fpB=sb; r|=qbits(q); return r; }
  double fp(u32 v,int d=0){ bool pn=!pins.empty(); if(pn&&isFl(v)){ std::vector<Pin> sp; sp.swap(pins); double pc=0; bool h=false; for(auto&p:sp) if(v==p.x||fpEq(v,p.x)==1){ h=true; pc=p.c; break; } pins.swap(sp); if(h){ fpB=Bl::full(); return pc; } }
    auto&pm=fpPure(); if(!pn){ auto ip=pm.find(v); if(ip!=pm.end()) return ip->second; } auto&M_=pn?fpp:fpm; Bl later; for(int i=(int)M_.size()-1;i>=0;i--){ auto it=M_[i].find(v); if(it!=M_[i].end()&&!it->second.b.hits(later)){ fpB|=it->second.b; return it->second.r; } if(pn||i==0) break; later|=lb[i-1]; }
    Bl sb=fpB; fpB=Bl(); double r=fp1(v,d); if(!fpB.any()&&!pn) pm[v]=r; else { int lv=(int)M_.size()-1; if(!pn) while(lv>0&&!lb[lv-1].hits(fpB)) lv--; M_[lv][v]={r,fpB}; } fpB|=sb; return r; }
  int fpSym(u32 s,int d){ fpB|=bit(s); auto it=K.find(s); if(it!=K.end()) return it->second; u32 v=SYMVID[s]; if(!v) return (s*2654435761u)>>31; Node n=NT.n[v]; if(n.op==N_BITS+1000){ int x=fpForm(n.a,d+1); if(x==0) return 0; int y=fpForm(n.b,d+1); return y==0?0:x<0||y<0?-1:1; } if(n.op<N_BIN+900||n.op>=N_BIN+916) return -1; double x=fp(n.a,d+1),y=fp(n.b,d+1); if(std::isnan(x)||std::isnan(y)) return -1;
    double c; bool cb=cval(n.b,c),ca=!cb&&cval(n.a,c); if((n.op==N_BIN+914||n.op==N_BIN+915)&&(ca||cb)){ double q=cb?x:y; fpB|=qbit(q); Rng r; bool any=false; // the point must respect what is assumed about this value
      for(auto&k:stk){ u32 kv=SYMVID[k.first]; if(!kv) continue; Node m=NT.n[kv]; if(m.op!=N_BIN+914&&m.op!=N_BIN+915) continue; double e; u32 z; bool up; if(cval(m.b,e)){ z=m.a; up=true; } else if(cval(m.a,e)){ z=m.b; up=false; } else continue; double w=fp(z,d+1); if(!(std::fabs(w-q)<=1e-6*std::fabs(q))) continue; any=true; bool st=m.op==N_BIN+914; if(!k.second){ up=!up; st=!st; } if(up){ if(e<r.hi||(e==r.hi&&st)){ r.hi=e; r.hs=st; } } else if(e>r.lo||(e==r.lo&&st)){ r.lo=e; r.ls=st; } }
      if(any){ bool st=n.op==N_BIN+914; if(cb){ if(r.hi<c||(r.hi==c&&(!st||r.hs))) return 1; if(r.lo>c||(r.lo==c&&(st||r.ls))) return 0; } else { if(r.lo>c||(r.lo==c&&(!st||r.ls))) return 1; if(r.hi<c||(r.hi==c&&(st||r.hs))) return 0; } return -1; } }
    switch(n.op-N_BIN){ case 900: case 910: case 911: return x==y; case 902: case 914: return x<y; case 915: return x<=y; } return -1; }
  int fpForm(u32 f,int d){ if(f<2) return (int)f; if(f==FU) return -1; int r=f&1; for(u32 s:SETS.v[f>>1]){ int x=fpSym(s,d); if(x<0) return -1; r^=x; } return r; }
  double fp1(u32 v,int d){ if(d>2000){ fpB=Bl::full(); return NAN; } Node n=NT.n[v]; double c; if(cval(v,c)) return c;
    if(n.op==N_ITE){ int r=fpForm(n.a,d); if(r<0){ double x=fp(n.b,d+1),y=fp(n.c,d+1); return x==y?x:NAN; } return fp(r?n.b:n.c,d+1); }
    if(n.op==N_BIN+Instruction::Add) return wrap32(fp(n.a,d+1)+fp(n.b,d+1)); if(n.op==N_BIN+Instruction::Sub) return wrap32(fp(n.a,d+1)-fp(n.b,d+1)); if(n.op==N_BIN+Instruction::Mul) return wrap32(fp(n.a,d+1)*fp(n.b,d+1));
    if(n.op==N_BIN+Instruction::FAdd) return fp(n.a,d+1)+fp(n.b,d+1);
    if(n.op==N_BIN+Instruction::FSub) return fp(n.a,d+1)-fp(n.b,d+1);
    if(n.op==N_BIN+Instruction::FMul) return fp(n.a,d+1)*fp(n.b,d+1);
    if(n.op==N_BIN+Instruction::FDiv) return fp(n.a,d+1)/fp(n.b,d+1);
    if(n.op==N_MODEL&&n.a==2) return -fp(n.b,d+1);
    if(n.op==N_CAST&&n.b>=9101&&n.b<=9106) return fp(n.a,d+1);
    if(n.op==N_FRESH||n.op==N_SYM){ u64 h=(v+1)*0x9E3779B97F4A7C15ull; h^=h>>29; h*=0xBF58476D1CE4E5B9ull; h^=h>>32; return 0.3+(h&0xffff)/65536.0; }
    if(n.op==N_MODEL&&n.c&&(n.a==idMin()||n.a==idMax())){ u32 a=n.b,b=n.c; double q; if(cval(a,q)) std::swap(a,b); bool mn=n.a==idMin(); u32 cs=symForVid(mn?NT.get(N_BIN+914,a,b):NT.get(N_BIN+914,b,a),0); int r=fpSym(cs,d); if(r<0){ double x=fp(a,d+1),y=fp(b,d+1); return x==y?x:NAN; } return fp(r?a:b,d+1); }
    if(n.op==N_MODEL&&(n.a==1||n.a>2)&&n.a!=9){ double x=fp(n.b,d+1); if(std::isnan(x)) return x; return n.a==1?std::fabs(x):n.a==idSqrt()?std::sqrt(std::fabs(x)):std::cbrt(x)+0.01*n.a; }
    return NAN; }
  // 1 equal at that point, 0 different, -1 unknown
  static double wrap32(double x){ return x-4294967296.0*std::floor((x+2147483648.0)/4294967296.0); }
  int fpEq(u32 a,u32 b){ double x=fp(a),y=fp(b); if(isI(a)||isI(b)){ x=wrap32(x); y=wrap32(y); } if(std::isnan(x)||std::isnan(y)) return -1; return std::fabs(x-y)<=1e-3*std::max(std::fabs(x),std::fabs(y))+1e-9; }
  bool eq1(u32 a,u32 b,int d){ double x,y; bool ca=cval(a,x),cb=cval(b,y); if(ca&&cb){ if(NT.n[a].op==N_CI||NT.n[b].op==N_CI) return NT.n[a].op==NT.n[b].op&&x==y; return close(x,y); }
    if(isIte(a)) return splitIte(a,a,b,d); if(isIte(b)) return splitIte(b,a,b,d);
    Node p=NT.n[a],q=NT.n[b];
    auto bitsOf=[&](u32 v,const Node&n,u32 w,std::vector<u32>&f)->bool{ if(n.op==N_BITS){ f=IDV.v[n.a]; return true; } if(n.op==N_CI){ u64 u=n.b|((u64)n.c<<32); f.clear(); for(u32 i=0;i<w;i++) f.push_back((u>>i)&1); return true; } return false; };
    if(p.op==N_BITS||q.op==N_BITS){ std::vector<u32> f,g; u32 w=p.op==N_BITS?p.b:q.b; if(bitsOf(a,p,w,f)&&bitsOf(b,q,w,g)&&f.size()==g.size()) return bitsEq(f,g,d); }
    bool arith=isF(p.op)||isF(q.op)||(p.op==N_MODEL&&p.a==idSqrt())||(q.op==N_MODEL&&q.a==idSqrt())||(p.op==N_MODEL&&p.a==2)||(q.op==N_MODEL&&q.a==2)||p.op==N_BIN+Instruction::Add||q.op==N_BIN+Instruction::Add||p.op==N_BIN+Instruction::Sub||q.op==N_BIN+Instruction::Sub||p.op==N_BIN+Instruction::Mul||q.op==N_BIN+Instruction::Mul||(p.op==N_CAST&&(p.b==9101||p.b==9102||p.b==9106))||(q.op==N_CAST&&(q.b==9101||q.b==9102||q.b==9106));
    if(arith){ bool ex=p.op==N_BIN+Instruction::Add||p.op==N_BIN+Instruction::Sub||p.op==N_BIN+Instruction::Mul||q.op==N_BIN+Instruction::Add||q.op==N_BIN+Instruction::Sub||q.op==N_BIN+Instruction::Mul; std::vector<Mono> la,lb; u32 ite=0; if(!lin(a,1,la,ite,0)||!lin(b,1,lb,ite,0)) return false; clean(la); clean(lb); if(ite){ if(d<300&&linEqX(la,lb,d,ex)) return true; return splitIte(ite,a,b,d); } bool prog=!(la.size()==1&&la[0].c==1&&la[0].m.size()==1&&la[0].m[0].first==a&&lb.size()==1&&lb[0].m.size()==1&&lb[0].m[0].first==b); if(prog) return linEqX(la,lb,d,ex); }
    if(p.op!=q.op){ if(p.op==N_CAST&&q.op==N_CAST&&false) return false; return false; }
    if(p.op==N_CAST){ if(p.b!=q.b||p.c!=q.c) return false; if(p.b==9010) return listEq(p.a,q.a,d); return eq(p.a,q.a,d+1); }
    if(p.op==N_EXT) return p.b==q.b&&eq(p.a,q.a,d+1);
    if(p.op==N_MODEL){ if(p.a!=q.a) return false; if(p.a==9) return listEq(p.b,q.b,d); return eq(p.b,q.b,d+1)&&(p.c==q.c||(p.c&&q.c&&eq(p.c,q.c,d+1))); }
    if(p.op==N_UF) return p.b==q.b&&p.c==q.c&&listEq(p.a,q.a,d);
    if(p.op==N_LOOK) return p.c==q.c&&listEq(p.a,q.a,d)&&listEq(p.b,q.b,d);
    if(p.op==N_VEC) return listEq(p.a,q.a,d);
    if(p.op>=N_BIN&&p.op<N_BIN+900){ if(p.c!=q.c) return false; if(eq(p.a,q.a,d+1)&&eq(p.b,q.b,d+1)) return true; u32 o=p.op-N_BIN; bool comm=o==Instruction::And||o==Instruction::Or||o==Instruction::Xor; return comm&&eq(p.a,q.b,d+1)&&eq(p.b,q.a,d+1); }
    if(p.op>=N_BIN+900&&p.op<N_BIN+1000) return sameOperands(a,b,d+1);
    return false; }
  bool linEq(std::vector<Mono>&la,std::vector<Mono>&lb,int d,bool ex=false){ if(ex) return linEqI(la,lb,d); double mx=0; for(auto&t:la) if(!t.m.empty()) mx=std::max(mx,std::fabs(t.c)); for(auto&t:lb) if(!t.m.empty()) mx=std::max(mx,std::fabs(t.c));
    std::vector<Mono> ra,rb; std::vector<char> used(lb.size(),0); for(auto&t:la){ bool f=false; for(size_t j=0;j<lb.size();j++) if(!used[j]&&lb[j].m==t.m){ if(!close(t.c,lb[j].c)&&std::fabs(t.c-lb[j].c)>4e-7*mx) return false; used[j]=1; f=true; break; } if(!f) ra.push_back(t); } for(size_t j=0;j<lb.size();j++) if(!used[j]) rb.push_back(lb[j]);
    // constants that vanish against the rest
    auto drop=[&](std::vector<Mono>&l){ for(size_t i=0;i<l.size();) if(std::fabs(l[i].c)<=(l[i].m.empty()?1e-9:4e-7)*mx) l.erase(l.begin()+i); else i++; }; drop(ra); drop(rb);
    if(ra.size()!=rb.size()) return false; std::vector<char> u2(rb.size(),0); for(auto&t:ra){ bool f=false; for(int pass=0;pass<2&&!f;pass++) for(size_t j=0;j<rb.size();j++) if(!u2[j]&&rb[j].m.size()==t.m.size()&&close(rb[j].c,t.c)&&(monoFp(t,rb[j])==1)==(pass==0)&&(pass==0||monoFp(t,rb[j])<0||!K.empty())&&monoEq(t,rb[j],d)){ u2[j]=1; f=true; break; } if(!f) return false; } return true; }
  // the same sum with products over short sums multiplied out
  bool expand(std::vector<Mono>&l,int d){ std::vector<Mono> r; bool ch=false; for(auto&t:l){ size_t i=0; std::vector<Mono> e; for(;i<t.m.size();i++) if(t.m[i].second==1){ u32 o=op(t.m[i].first); if(o!=N_BIN+Instruction::FAdd&&o!=N_BIN+Instruction::FSub&&o!=N_BIN+Instruction::Add&&o!=N_BIN+Instruction::Sub) continue; u32 ite=0; e.clear(); if(!lin(t.m[i].first,1,e,ite,d)) return false; clean(e); if(e.size()>=2&&e.size()<=8) break; } if(i==t.m.size()){ addMono(r,t); continue; } ch=true; for(auto&y:e){ Mono q; q.c=t.c*y.c; q.m=t.m; q.m.erase(q.m.begin()+i); for(auto&z:y.m) mulAtom(q.m,z.first,z.second); std::sort(q.m.begin(),q.m.end()); addMono(r,q); } if(r.size()>200) return false; } l.swap(r); clean(l); return ch; }
  bool linEqX(std::vector<Mono>&la,std::vector<Mono>&lb,int d,bool ex){ if(linEq(la,lb,d,ex)) return true; for(int k=0;k<3;k++){ bool x=expand(la,d),y=expand(lb,d); if(!x&&!y) return false; if(linEq(la,lb,d,ex)) return true; } return false; }
  // integers modulo 2^32: no tolerance
  bool linEqI(std::vector<Mono>&la,std::vector<Mono>&lb,int d){ auto z=[](double x){ return std::fmod(x,4294967296.0)==0; }; std::vector<char> u(lb.size(),0); for(auto&t:la){ if(z(t.c)) continue; bool f=false; for(int pass=0;pass<2&&!f;pass++) for(size_t j=0;j<lb.size()&&!f;j++) if(!u[j]&&z(t.c-lb[j].c)&&lb[j].m.size()==t.m.size()&&(pass==0?lb[j].m==t.m:monoFp(t,lb[j])!=0&&monoEq(t,lb[j],d))){ u[j]=1; f=true; } if(!f) return false; } for(size_t j=0;j<lb.size();j++) if(!u[j]&&!z(lb[j].c)) return false; return true; }
  int monoFp(const Mono&x,const Mono&y){ double p=1,q=1; for(auto&e:x.m) p*=std::pow(fp(e.first),e.second); for(auto&e:y.m) q*=std::pow(fp(e.first),e.second); if(std::isnan(p)||std::isnan(q)) return -1; return std::fabs(p-q)<=1e-5*std::max(std::fabs(p),std::fabs(q)); }
  bool monoEq(const Mono&x,const Mono&y,int d){ std::vector<char> u(y.m.size(),0); for(auto&p:x.m){ bool f=false; for(size_t j=0;j<y.m.size();j++) if(!u[j]&&y.m[j].second==p.second&&y.m[j].first==p.first){ u[j]=1; f=true; break; } if(f) continue; for(int pass=0;pass<2&&!f;pass++) for(size_t j=0;j<y.m.size();j++) if(!u[j]&&y.m[j].second==p.second&&(fpEq(p.first,y.m[j].first)==1)==(pass==0)&&eq(p.first,y.m[j].first,d+1)){ u[j]=1; f=true; break; } if(!f) return false; } return true; }
};
// address of an abstract load: constant part dropped, indices kept with their scale
static void ptrLin(u32 v,std::vector<std::pair<u32,i64>>&t,i64&c,int d=0){ Node n=NT.n[v]; if(d>60||n.op==N_PTR){ if(n.op==N_PTR){ auto&h=IDV.v[n.a]; c+=(i64)(int)h[1]; } else t.push_back({v,1}); return; }
  if(n.op==N_BIN+981){ ptrLin(n.a,t,c,d+1); // index value
    std::vector<Sem::Mono> l; Sem s; u32 ite=0; i64 sc=(i64)(int)n.c; if(s.lin(n.b,1,l,ite,0)){ for(auto&m:l){ if(m.m.empty()){ c+=(i64)m.c*sc; continue; } if(m.m.size()==1&&m.m[0].second==1){ t.push_back({m.m[0].first,(i64)m.c*sc}); } else { t.push_back({n.b,sc}); } } } else t.push_back({n.b,sc}); return; }
  if(n.op==N_BIN+980){ ptrLin(n.a,t,c,d+1); c+=(i64)(n.b|((u64)n.c<<32)); return; }
  t.push_back({v,1}); }
static u32 addrKey(u32 pvid,i64 lo){ std::vector<std::pair<u32,i64>> t; i64 c=0; ptrLin(pvid,t,c); std::sort(t.begin(),t.end()); std::vector<u32> h; for(size_t i=0;i<t.size();i++){ i64 k=t[i].second; while(i+1<t.size()&&t[i+1].first==t[i].first) k+=t[++i].second; if(!k) continue; h.push_back(t[i].first); h.push_back(NT.get(N_CI,64,(u32)k,(u32)((u64)k>>32))); } i64 off=c-lo; h.push_back(NT.get(N_CI,64,(u32)off,(u32)((u64)off>>32))); return IDV.get(h); }
static Sem* SEM=nullptr;
// Selections (conditionals, min/max, |x|) over the same few values, written differently: the values are identified with
// each other first, replaced by unknowns, and the selections are then compared case by case over those.
struct Leaves { Sem&s; std::vector<std::pair<u32,u32>> lv; std::unordered_map<u32,u32> m; int n=0; bool bad=false;
  static bool inner(const Node&x){ return x.op==N_ITE||(x.op==N_MODEL&&(x.a==1||x.a==2||(x.c&&(x.a==Sem::idMin()||x.a==Sem::idMax())))); }
  u32 leaf(u32 v){ double c; if(Sem::cval(v,c)) return v; for(auto&l:lv) if(l.first==v) return l.second; for(auto&l:lv){ s.steps=0; s.pick=FU; if(s.eq(l.first,v)){ u32 f=l.second; lv.push_back({v,f}); return f; } } if(s.over||lv.size()>24){ bad=true; return v; } u32 f=NT.fresh(); lv.push_back({v,f}); return f; }
  u32 sym(u32 k){ u32 v=SYMVID[k]; if(!v) return fSym(k); Node x=NT.n[v]; if(x.op==N_BITS+1000){ u32 p=form(x.a),q=form(x.b); return fSym(symForVid(NT.get(N_BITS+1000,p,q),0)); } if(x.op<N_BIN+910||x.op>=N_BIN+926) return fSym(k); u32 p=val(x.a),q=val(x.b); double c,e; if(Sem::cval(p,c)&&Sem::cval(q,e)){ bool t=x.op==N_BIN+914?c<e:x.op==N_BIN+915?c<=e:x.op==N_BIN+911?c==e:false; if(x.op==N_BIN+914||x.op==N_BIN+915||x.op==N_BIN+911) return t; } return fSym(symForVid(NT.get(x.op,p,q),0)); }
  u32 form(u32 f){ if(f<2||f==FU) return f; u32 r=f&1; for(u32 k:SETS.v[f>>1]) r=fXor(r,sym(k)); return r; }
  u32 val(u32 v){ auto it=m.find(v); if(it!=m.end()) return it->second; if(++n>4000||bad){ bad=true; return v; } int k=s.K.empty()?-1:0; (void)k; u32 w=s.simp(v); Node x=NT.n[w]; u32 r; if(!inner(x)) r=leaf(w); else if(x.op==N_ITE){ u32 c=form(x.a),p=val(x.b),q=val(x.c); r=c==1?p:c==0?q:p==q?p:NT.get(N_ITE,c,p,q); } else if(x.c) { u32 p=val(x.b),q=val(x.c); r=NT.get(N_MODEL,x.a,p,q); } else r=NT.get(N_MODEL,x.a,val(x.b)); return m[v]=r; } };
static bool leafSame(Sem&s,u32 a,u32 b){ if(!Leaves::inner(NT.n[a])&&!Leaves::inner(NT.n[b])) return false; Leaves l{s}; u32 p=l.val(a),q=l.val(b); if(l.bad) return false; if(p==q) return true; Sem t; t.deep=true; t.limit=200000; return t.eq(p,q); }
static bool semSame(State&S,const V&a,const V&b){ if(sameVal(a,b)) return true; if(a->w==b->w&&(a->w==32||a->w==64)){ if(a->k==INT&&b->k==FLT) return semSame(S,floatOfInt(a),b); if(a->k==FLT&&b->k==INT) return semSame(S,a,floatOfInt(b)); } if(a->k==UNDEF||b->k==UNDEF||a->k!=b->k||a->w!=b->w) return false; if((a->und&&knownForm(S,a->und)!=0)||(b->und&&knownForm(S,b->und)!=0)) return false;
  if(a->k==VEC){ if(a->el.size()!=b->el.size()) return false; for(size_t i=0;i<a->el.size();i++) if(!semSame(S,a->el[i],b->el[i])) return false; return true; }
  // the comparer (and what it has established) is kept while the path conditions stay the same
  std::map<u32,bool> k0; for(auto&k:S.known){ auto&v=SETS.v[k.first>>1]; if(v.size()==1) k0[v[0]]=k.second; }
  static Sem*kept=nullptr; static std::map<u32,bool> keptK; if(!kept||keptK!=k0||kept->memo.size()>2000000){ delete kept; kept=new Sem; keptK=k0; kept->K=k0; } Sem&s=*kept; s.steps=0; s.over=false; s.pick=FU; s.used=0; s.busy.clear();
  bool lf=Leaves::inner(NT.n[a->vid])&&Leaves::inner(NT.n[b->vid]); bool r=lf&&leafSame(s,a->vid,b->vid); if(!r&&!s.over) r=s.eq(a->vid,b->vid); if(!r&&!s.over&&!lf) r=leafSame(s,a->vid,b->vid); if(!r&&s.over&&getenv("AI_DEBUG")) fprintf(stderr,"semantic comparison gave up\n"); return r; }
