// a float term as a linear combination of its non-linear parts (first entry 0: the constant)
typedef std::vector<std::pair<u32,double>> LinV;
static std::shared_ptr<LinV> linMap(u32 v,int d=0){ static std::unordered_map<u32,std::shared_ptr<LinV>> memo; auto it=memo.find(v); if(it!=memo.end()) return it->second; Node n=NT.n[v]; auto R=std::make_shared<LinV>(); double c;
  auto comb=[&](const LinV&a,double x,const LinV&b,double y){ size_t i=0,j=0; while(i<a.size()||j<b.size()){ if(j>=b.size()||(i<a.size()&&a[i].first<b[j].first)){ R->push_back({a[i].first,a[i].second*x}); i++; } else if(i>=a.size()||b[j].first<a[i].first){ R->push_back({b[j].first,b[j].second*y}); j++; } else { R->push_back({a[i].first,a[i].second*x+b[j].second*y}); i++; j++; } } };
  if(Sem::cval(v,c)) R->push_back({0,c}); else if(d>2000) R->push_back({v,1}); else if(n.op==N_BIN+Instruction::FAdd||n.op==N_BIN+Instruction::FSub) comb(*linMap(n.a,d+1),1,*linMap(n.b,d+1),n.op==N_BIN+Instruction::FAdd?1:-1);
  else if(n.op==N_BIN+Instruction::FMul&&Sem::cval(n.b,c)) comb(*linMap(n.a,d+1),c,LinV(),0); else if(n.op==N_BIN+Instruction::FMul&&Sem::cval(n.a,c)) comb(*linMap(n.b,d+1),c,LinV(),0); else if(n.op==N_BIN+Instruction::FDiv&&Sem::cval(n.b,c)&&c!=0) comb(*linMap(n.a,d+1),1/c,LinV(),0);
  else if(n.op==N_MODEL&&n.a==2) comb(*linMap(n.b,d+1),-1,LinV(),0); else if(n.op==N_CAST&&(n.b==9104||n.b==9105)) comb(*linMap(n.a,d+1),1,LinV(),0); else R->push_back({v,1});
  memo[v]=R; return R; }
static int DBGD=getenv("AI_DEPTH")?atoi(getenv("AI_DEPTH")):7;
// ---------- calls ----------
static std::string cstr(State&S,const V&p){ if(p->k!=PTR||p->tg.size()!=1||p->tg[0].lo!=p->tg[0].hi) fail("string argument"); std::string r; auto*o=S.find(p->tg[0].obj); if(!o) fail("string object"); for(i64 f=p->tg[0].lo;f<(i64)(*o)->n;f++){ V b=byteAt(o->p,p->tg[0].obj,f); if(!single(b)) return r+"?"; if(b->lo==0) break; r+=(char)b->lo; } return r; }
static u32 MODEL_IDS=10; static u32 modelId(const std::string&n){ static std::map<std::string,u32> m; if(n=="fabs") return 1; auto it=m.find(n); if(it!=m.end()) return it->second; return m[n]=MODEL_IDS++; }
struct MathR { double lo,hi; bool nan; };
static bool mathModel(const std::string&name0,const std::vector<V>&a,V&r){
  std::string n=name0; if(n.rfind("llvm.",0)==0){ size_t d=n.find('.',5); n=n.substr(5,d-5); if(n=="fabs"||n=="floor"||n=="ceil"||n=="sqrt"||n=="rint"||n=="round"||n=="trunc"||n=="nearbyint"||n=="minnum"||n=="maxnum"||n=="sin"||n=="cos"||n=="exp"||n=="exp2"||n=="log"||n=="log2"||n=="log10"||n=="pow"||n=="copysign"){} else return false; if(n=="minnum") n="fmin"; if(n=="maxnum") n="fmax"; }
  else if(!a.empty()&&a[0]->k==FLT&&a[0]->w==32&&n.size()>1&&n.back()=='f') n.pop_back();
  static const std::set<std::string> one={"sin","cos","tan","exp","exp2","log","log2","log10","sqrt","floor","ceil","fabs","round","trunc","rint","nearbyint","atan","tanh","cbrt","acos","asin"},two={"fmod","pow","fmin","fmax","atan2","copysign","hypot","remainder"};
  bool o=one.count(n),t=two.count(n); if(!o&&!t) return false; if(a.empty()||a[0]->k!=FLT) return false; u32 w=a[0]->w;
  auto f1=[&](double x)->double{ float y=(float)x; bool f=w==32;
    if(n=="sin") return f?sinf(y):sin(x); if(n=="cos") return f?cosf(y):cos(x); if(n=="tan") return f?tanf(y):tan(x); if(n=="exp") return f?expf(y):exp(x); if(n=="exp2") return f?exp2f(y):exp2(x); if(n=="log") return f?logf(y):log(x); if(n=="log2") return f?log2f(y):log2(x); if(n=="log10") return f?log10f(y):log10(x); if(n=="sqrt") return f?sqrtf(y):sqrt(x); if(n=="floor") return floor(x); if(n=="ceil") return ceil(x); if(n=="fabs") return fabs(x); if(n=="round") return round(x); if(n=="trunc") return trunc(x); if(n=="rint"||n=="nearbyint") return rint(x); if(n=="atan") return f?atanf(y):atan(x); if(n=="tanh") return f?tanhf(y):tanh(x); if(n=="cbrt") return f?cbrtf(y):cbrt(x); if(n=="acos") return f?acosf(y):acos(x); return f?asinf(y):asin(x); };
  auto f2=[&](double x,double y)->double{ bool f=w==32; if(n=="fmod") return fround_(w,fmod(x,y)); if(n=="pow") return f?powf((float)x,(float)y):pow(x,y); if(n=="fmin") return fmin(x,y); if(n=="fmax") return fmax(x,y); if(n=="atan2") return f?atan2f((float)x,(float)y):atan2(x,y); if(n=="copysign") return copysign(x,y); if(n=="hypot") return f?hypotf((float)x,(float)y):hypot(x,y); return fround_(w,remainder(x,y)); };
  auto isS=[&](const V&v){ return single(v)||NT.n[v->vid].op==N_CF; }; auto sv=[&](const V&v){ return v->flo>v->fhi?NAN:v->flo; };
  u32 id=modelId(n); u32 dep=a[0]->dep; if(t) dep=depUnion(dep,a[1]->dep);
  if(o&&isS(a[0])){ r=mkF(w,f1(sv(a[0]))); return true; } if(t&&isS(a[0])&&isS(a[1])){ r=mkF(w,f2(sv(a[0]),sv(a[1]))); return true; }
  u32 va=a[0]->vid,vb=t?a[1]->vid:0; if((n=="fmin"||n=="fmax")&&va>vb) std::swap(va,vb); u32 vid=NT.get(N_MODEL,id,va,vb);
  double l=a[0]->flo,h=a[0]->fhi; bool nan=a[0]->nan||(t&&a[1]->nan),em=l>h; double lo,hi; bool inf=!em&&(std::isinf(l)||std::isinf(h));
  auto dn=[&](double x){ return w==32?(double)nextafterf(nextafterf((float)x,-INFINITY),-INFINITY):nextafter(nextafter(x,-INFINITY),-INFINITY); }; auto up=[&](double x){ return w==32?(double)nextafterf(nextafterf((float)x,INFINITY),INFINITY):nextafter(nextafter(x,INFINITY),INFINITY); };
  if(em){ r=mkFR(w,1,0,true,vid,dep); if(t){ r=mkFR(w,-INFINITY,INFINITY,true,vid,dep);} return true; }
  if(n=="sin"||n=="cos"){ lo=-1;hi=1; if(inf) nan=true; if(!inf&&h-l<3.0&&std::fabs(l)<1e6){ double x1=f1(l),x2=f1(h); double mn=std::min(x1,x2),mx=std::max(x1,x2); double off=n=="sin"?M_PI/2:0; // maxima at off+2k*pi, minima at off+pi+2k*pi
      double k=std::ceil((l-off)/(2*M_PI)-1e-9); if(off+2*M_PI*k<=h+1e-6) mx=1; k=std::ceil((l-off-M_PI)/(2*M_PI)-1e-9); if(off+M_PI+2*M_PI*k<=h+1e-6) mn=-1; lo=std::max(-1.0,dn(mn));hi=std::min(1.0,up(mx)); } }
  else if(n=="exp"||n=="exp2"){ lo=std::max(0.0,dn(f1(l)));hi=up(f1(h)); }
  else if(n=="log"||n=="log2"||n=="log10"){ if(l<0) nan=true; lo=l<=0?-INFINITY:dn(f1(l)); hi=h<0?0:up(f1(h)); if(h<0){ r=mkFR(w,1,0,true,vid,dep); return true; } }
  else if(n=="sqrt"){ if(l<0) nan=true; if(h<0){ r=mkFR(w,1,0,true,vid,dep); return true;} lo=l<=0?(l<0?0:0):f1(l); hi=f1(h); }
  else if(n=="floor"||n=="ceil"||n=="round"||n=="trunc"||n=="rint"||n=="nearbyint"){ lo=f1(l);hi=f1(h); }
  else if(n=="fabs"){ lo=l<=0&&h>=0?0:std::min(std::fabs(l),std::fabs(h));hi=std::max(std::fabs(l),std::fabs(h)); if(l>=0&&l<=h){ r=a[0]; return true; } vid=NT.get(N_MODEL,1,va); r=mkFR(w,lo,hi,nan,vid,dep); r=setProv(r,P_FABS,0,a[0]); return true; }
  else if(n=="fmod"||n=="remainder"){ V q=fltBin(Instruction::FRem,a[0],a[1]); if(n=="remainder"){ r=mkFR(w,-INFINITY,INFINITY,true,vid,dep); return true; } r=q; return true; }
  else if((n=="fmin"||n=="fmax")&&a[1]->flo<=a[1]->fhi&&((!a[0]->nan&&(n=="fmin"?h<=a[1]->flo:l>=a[1]->fhi))||(!a[1]->nan&&(n=="fmin"?a[1]->fhi<=l:a[1]->flo>=h)))){ r=!a[0]->nan&&(n=="fmin"?h<=a[1]->flo:l>=a[1]->fhi)?a[0]:a[1]; return true; }
  else if(n=="fmin"){ if(a[1]->flo>a[1]->fhi){ lo=l;hi=h;} else { lo=std::min(l,a[1]->flo);hi=std::min(h,a[1]->fhi); if(a[0]->nan) hi=std::max(hi,a[1]->fhi); if(a[1]->nan) hi=std::max(hi,h);} nan=a[0]->nan&&a[1]->nan; }
  else if(n=="fmax"){ if(a[1]->flo>a[1]->fhi){ lo=l;hi=h;} else { lo=std::max(l,a[1]->flo);hi=std::max(h,a[1]->fhi); if(a[0]->nan) lo=std::min(lo,a[1]->flo); if(a[1]->nan) lo=std::min(lo,l);} nan=a[0]->nan&&a[1]->nan; }
  else if(n=="copysign"){ double mx=std::max(std::fabs(l),std::fabs(h)),mn=l<=0&&h>=0?0:std::min(std::fabs(l),std::fabs(h)); bool pos=!a[1]->nan&&a[1]->flo>0,neg=!a[1]->nan&&a[1]->fhi<0; hi=neg?-mn:mx;lo=pos?mn:-mx; nan=a[0]->nan; }
  else if(n=="pow"&&l>0&&!em&&a[1]->flo<=a[1]->fhi){ double c[4]={f2(l,a[1]->flo),f2(l,a[1]->fhi),f2(h,a[1]->flo),f2(h,a[1]->fhi)}; lo=std::max(0.0,dn(*std::min_element(c,c+4)));hi=up(*std::max_element(c,c+4)); if(l<=1&&h>=1){lo=std::min(lo,1.0);hi=std::max(hi,1.0);} }
  else if(n=="atan"){ lo=-1.5708;hi=1.5708; } else if(n=="tanh"){ lo=-1;hi=1; } else if(n=="atan2"){ lo=-3.14160;hi=3.14160; }
  else { lo=-INFINITY;hi=INFINITY;nan=true; }
  r=mkFR(w,lo,hi,nan,vid,dep); return true; }
struct Bc { u32 obj; i64 off; };
static bool exactPtr(const V&p,u32&obj,i64&off){ if(p->k!=PTR||p->tg.size()!=1||p->tg[0].lo!=p->tg[0].hi) return false; obj=p->tg[0].obj; off=p->tg[0].lo; return true; }
static V rdType(State&S,const V&p,u64 k){ return loadV(S,ptrShift(p,(i64)k),T_INT,8,0,0,0,"memory function"); }
static void copyBytes(State&S,const V&dst,const V&src,i64 n,const char*what){
  if(n<=0) return; auto rs=checkAcc(S,src,n,false,what); auto ws=checkAcc(S,dst,n,true,what); u32 so,dobj; i64 sf,df; if(rs.empty()||ws.empty()) return;
  if(exactPtr(src,so,sf)&&exactPtr(dst,dobj,df)&&rs[0].lo==sf&&ws[0].lo==df){ Ref<Obj> srcR=*S.find(so); Obj*w=wobj(*S.find(dobj)); Def sd=OBJ[so].def; std::vector<Ent> tmp(n); for(i64 i=0;i<n;i++){ const Ent*e=entAt(srcR.p,sf+i); if(e) tmp[i]=*e; else { V v= sd==D_ZERO?mkInt(8,0):sd==D_UNINIT?mkUndef(8):byteAt(srcR.p,so,sf+i); tmp[i].v=v; tmp[i].bi=0; } } for(i64 i=0;i<n;i++){ Chunk*c=wchunk(w,(df+i)>>6); c->e[(df+i)&63]=tmp[i]; } return; }
  // abstract source or destination: element-wise weak copy (4-byte units when possible)
  i64 u=(n%4==0)?4:1; std::vector<V> tmp; for(i64 i=0;i<n;i+=u){ std::vector<Tgt> t; for(auto&a:rs) t.push_back({a.obj,a.lo+i,a.hi+i,a.step,INT64_MIN,INT64_MAX,INT64_MIN,INT64_MAX}); V q=mkPtr(t,src->dep); if(NT.n[q->vid].op!=N_PTR) q->vid=NT.get(N_BIN+982,src->vid,(u32)i); V v; auto&a0=rs[0]; const Ent*e=entAt(S.find(a0.obj)->p,a0.lo+i); u8 tk=(u==4&&e&&e->v->k==FLT)?T_FLT:T_INT; v=loadV(S,q,tk,u*8,0,0,0,what); tmp.push_back(v); }
  size_t k=0; for(i64 i=0;i<n;i+=u,k++){ std::vector<Tgt> t; for(auto&a:ws) t.push_back({a.obj,a.lo+i,a.hi+i,a.step,INT64_MIN,INT64_MAX,INT64_MIN,INT64_MAX}); V q=mkPtr(t,dst->dep); if(NT.n[q->vid].op!=N_PTR) q->vid=NT.get(N_BIN+982,dst->vid,(u32)i); storeV(S,q,tmp[k],u,what); } }
static V argInt(const V&v,u32 w){ if(v->und) return argInt(sane(v,T_INT,w,"argument"),w); V x=v->k==INT?v:toInt(v,w); if(x->k==UNDEF) return sane(x,T_INT,w,"argument"); return x; }
static std::vector<std::pair<std::string,u32>> inputNames; static std::map<std::string,u32> symByName;
static void outLine(const std::string&s){ if(OUTS.size()<2000000) OUTS.push_back(s); }
static std::string valJson(const V&v){ char b[256]; if(v->k==INT){ if(single(v)) snprintf(b,256,"%lld",(long long)v->lo); else snprintf(b,256,"[%lld,%lld]",(long long)v->lo,(long long)v->hi); return b;} if(v->k==FLT){ if(v->flo>v->fhi) return "\"nan\""; if(single(v)||NT.n[v->vid].op==N_CF){ if(std::isinf(v->flo)) return v->flo>0?"\"inf\"":"\"-inf\""; snprintf(b,256,"%.9g",v->flo); return b; } auto num=[&](double x){ char c[64]; if(std::isinf(x)) return std::string(x>0?"\"inf\"":"\"-inf\""); snprintf(c,64,"%.9g",x); return std::string(c); }; return "["+num(v->flo)+","+num(v->fhi)+","+(v->nan?"true":"false")+"]"; } return "\""+jesc(showVal(v))+"\""; }
static u32 cellDeps(State&S,const V&p,i64 n){ u32 d=0; u32 o; i64 f; if(!exactPtr(p,o,f)) fail("exact pointer expected"); auto*ob=S.find(o); if(!ob) return 0; for(i64 i=0;i<n;i++){ const Ent*e=entAt(ob->p,f+i); if(e) d=depUnion(d,e->v->dep); } return d; }
static std::string depStr(u32 d){ std::string r; int k=0; for(u32 s:DEPS.v[d]){ if(k++>12){ r+="..."; break; } r+=(r.empty()?"":" ")+SYMS[s].name; } return r; }

static int prnMode=0; static V prnBuf,prnLen; static i64 prnCap=0;
static std::vector<V> fmtBytes(State&S,DI&d,std::vector<V>&a,size_t fi,const std::string&n){ std::string fm=cstr(S,a[fi]); std::string o; size_t ai=fi+1; std::vector<V> bytes; for(size_t i=0;i<fm.size();i++){ if(fm[i]!='%'){ bytes.push_back(mkInt(8,(i64)fm[i])); continue; } i++; if(fm[i]=='%'){ bytes.push_back(mkInt(8,(i64)'%')); continue; } if(fm[i]=='s'){ V p=a[ai++]; for(i64 j=0;;j++){ V c=loadV(S,ptrShift(p,j),T_INT,8,0,0,0,"snprintf %s"); if(c->k==UNDEF){ sane(c,T_INT,8,"snprintf"); break; } if(single(c)&&c->lo==0) break; if(!single(c)&&c->lo<=0&&c->hi>=0) fail("snprintf of a string of unknown length"); bytes.push_back(c); if(j>100000) fail("snprintf string"); } continue; } if(fm[i]=='d'||fm[i]=='u'||fm[i]=='i'){ V v=argInt(a[ai++],32); if(!single(v)){ if(v->lo<0||v->hi>9) fail("printing an unknown number"); bool q1,q2,q3,q4,q5; bytes.push_back(castOp(d,Instruction::Trunc,intBin(Instruction::Add,v,mkInt(32,48),q1,q2,q3,q4,q5),T_INT,8)); continue; } for(char c:std::to_string(v->lo)) bytes.push_back(mkInt(8,c)); continue; } if(fm[i]=='c'){ V v=argInt(a[ai++],32); bytes.push_back(castOp(d,Instruction::Trunc,v,T_INT,8)); continue; } fail("snprintf format "+fm); } return bytes; }
static bool aiIntrinsic(const std::string&n,Fn&F,DI&d,State&S,const std::vector<V>&a,V&ret){
  if(n.rfind("__ai_",0)!=0) return false; std::string k=n.substr(5); obl("harness"); 
  auto assertFail=[&](const std::string&m){ report("assert",m); };
  auto AI=[&](int i)->i64{ V x=argInt(a[i],a[i]->w); if(!single(x)) fail("intrinsic argument must be constant: "+n); return x->lo; };
  if(k=="int"){ std::string nm=cstr(S,a[0]); u32 s=newSym(nm,0,true); ret=mkIntR(32,AI(1),AI(2),NT.get(N_SYM,s),SYMS[s].dep); return true; }
  if(k=="bits"){ std::string nm=cstr(S,a[0]); i64 c=AI(1); std::vector<u32> f(32,0); u32 dep=0; for(i64 i=0;i<c;i++){ u32 s=newSym(c==1?nm:nm+"."+std::to_string(i),0,true); f[i]=fSym(s); dep=depUnion(dep,SYMS[s].dep);} ret=mkBits(32,f,0,c>=31?INT32_MAX:(1ll<<c)-1,0,dep); return true; }
  if(k=="float"||k=="float_nan"){ std::string nm=cstr(S,a[0]); u32 s=newSym(nm,0,true); if(a[1]->k!=FLT||a[2]->k!=FLT) fail("__ai_float bounds"); ret=mkFR(32,a[1]->flo,a[2]->fhi,k=="float_nan",NT.get(N_SYM,s),SYMS[s].dep); return true; }
  if(k=="assert"){ std::string m=cstr(S,a[1]); V c=argInt(a[0],32); if(!(c->lo>0||c->hi<0)){ bool ok=false; // decide via the known path facts
      V b=icmpV(CmpInst::ICMP_NE,c,mkInt(32,0)); if(single(b)) ok=b->lo!=0; else { State T; T.facts=S.facts;T.bloom=S.bloom;T.known=S.known; if(knownForm(S,cform(b))==1) ok=true; else if(!assume(T,b,false)) ok=true; } if(!ok) assertFail(m); } oblCount["assertion"]++; return true; }
  if(k=="same_mem"){ i64 nb=AI(2); std::string m=cstr(S,a[3]); u32 o1,o2; i64 f1,f2; if(!exactPtr(a[0],o1,f1)||!exactPtr(a[1],o2,f2)) fail("same_mem pointer"); auto*p=S.find(o1),*q=S.find(o2); for(i64 i=0;i<nb;){ const Ent*x=entAt(p->p,f1+i),*y=entAt(q->p,f2+i); if(x&&y&&x->v.p==y->v.p&&x->bi==y->bi){i++;continue;} u32 w=1; if(x&&y&&x->bi==0&&y->bi==0&&x->v->w==y->v->w) w=(x->v->w+7)/8; bool ok; V vx,vy; if(w>1){ vx=rd(S,x->v);vy=rd(S,y->v); ok=semSame(S,vx,vy); } else { vx=byteAt(p->p,o1,f1+i);vy=byteAt(q->p,o2,f2+i); ok=semSame(S,vx,vy)||(vx->k==UNDEF&&vy->k==UNDEF); } if(!ok&&vx->k==UNDEF&&vy->k==UNDEF) ok=true; if(!ok){ assertFail(m+" (byte offset "+std::to_string(i)+": "+showVal(vx)+" vs "+showVal(vy)+")"); if(getenv("AI_DEBUG")) fprintf(stderr,"  %s\n  %s\n",showVid(vx->vid,DBGD).c_str(),showVid(vy->vid,DBGD).c_str()); return true; } i+=w; } oblCount["assertion"]+=nb; return true; }
  if(k=="same_lin"){ std::string m=cstr(S,a[3]); double eps=a[2]->flo; V x=rd(S,a[0]),y=rd(S,a[1]); auto&l=*linMap(x->vid),&r=*linMap(y->vid); size_t i=0,j=0; std::string bad; while(bad.empty()&&(i<l.size()||j<r.size())){ u32 v; double c,d; if(j>=r.size()||(i<l.size()&&l[i].first<r[j].first)){ v=l[i].first; c=l[i++].second; d=0; } else if(i>=l.size()||r[j].first<l[i].first){ v=r[j].first; d=r[j++].second; c=0; } else { v=l[i].first; c=l[i++].second; d=r[j++].second; } if(!(std::fabs(c-d)<=eps)) bad="coefficient "+std::to_string(c)+" instead of "+std::to_string(d); oblCount["coefficient"]++; } if(!bad.empty()) assertFail(m+" ("+bad+")"); oblCount["assertion"]++; return true; }
  if(k=="same_i"||k=="same_f"){ std::string m=cstr(S,a[2]); if(!semSame(S,rd(S,a[0]),rd(S,a[1]))){ assertFail(m+" ("+showVal(a[0])+" vs "+showVal(a[1])+")"); if(getenv("AI_DEBUG")) fprintf(stderr,"  %s\n  %s\n",showVid(a[0]->vid,DBGD).c_str(),showVid(a[1]->vid,DBGD).c_str()); } oblCount["assertion"]++; return true; }
  // uninterpreted result: a function of its name, an index and the memory it is given
  if(k=="uf_f"||k=="uf_i"){ std::string nm=cstr(S,a[0]); i64 idx=AI(1),nb=AI(3); u32 o; i64 f; std::vector<u32> ids; u32 dep=0; if(nb>0){ if(!exactPtr(a[2],o,f)) fail("uf pointer"); auto*p=S.find(o); for(i64 i=0;i<nb;){ const Ent*x=entAt(p->p,f+i); V v; u32 w=1; if(x&&x->bi==0&&x->v->k!=VEC&&i+(x->v->w+7)/8<=nb){ w=(x->v->w+7)/8; bool ok=true; for(u32 j=1;j<w;j++){ const Ent*y=entAt(p->p,f+i+j); if(!y||y->v.p!=x->v.p||y->bi!=j) ok=false; } if(ok) v=rd(S,x->v); else { w=1; v=byteAt(p->p,o,f+i);} } else v=byteAt(p->p,o,f+i); ids.push_back(v->k==UNDEF?0:v->vid); dep=depUnion(dep,v->dep); i+=w; } }
    u32 id; auto it=UFN.find(nm); if(it==UFN.end()){ id=UFN[nm]=UFNAMES.size(); UFNAMES.push_back(nm);} else id=it->second; u32 vid=NT.get(N_UF,IDV.get(ids),id,(u32)idx); if(k=="uf_f") ret=mkFR(32,a[4]->flo,a[5]->flo,false,vid,dep); else { V r=mkIntR(32,AI(4),AI(5),vid,dep); ret=r; } return true; }
  if(k=="range_f"){ std::string m=cstr(S,a[3]); V v=a[0]; if(v->k!=FLT){ assertFail(m+" (uninitialised)"); return true; } if(v->nan||v->flo>v->fhi||v->flo<a[1]->flo||v->fhi>a[2]->flo) assertFail(m+" ("+showVal(v)+" not within ["+showVal(a[1])+","+showVal(a[2])+"])"); oblCount["assertion"]++; return true; }
  if(k=="range_i"){ std::string m=cstr(S,a[3]); V v=argInt(a[0],32); if(v->lo<AI(1)||v->hi>AI(2)) assertFail(m+" ("+showVal(v)+" not within ["+std::to_string(AI(1))+","+std::to_string(AI(2))+"])"); oblCount["assertion"]++; return true; }
  if(k=="init"){ i64 nb=AI(1); std::string m=cstr(S,a[2]); u32 o; i64 f; if(!exactPtr(a[0],o,f)) fail("init pointer"); auto*p=S.find(o); for(i64 i=0;i<nb;i++){ const Ent*e0=entAt(p->p,f+i); if((e0&&e0->v->und&&knownForm(S,e0->v->und)!=0)||(!(e0&&e0->v->und)&&byteAt(p->p,o,f+i)->k==UNDEF)){ assertFail(m+" (byte "+std::to_string(i)+" never written)"); return true; } } oblCount["assertion"]+=nb; return true; }
  if(k=="uninit"){ i64 nb=AI(1); u32 o; i64 f; if(!exactPtr(a[0],o,f)) fail("uninit pointer"); Obj*w=wobj(*S.find(o)); i64 u=nb%4==0&&f%4==0?4:1; for(i64 i=0;i<nb;i+=u) writeBytes(w,f+i,mkUndef(u*8),u); return true; }
  if(k=="freeze"){ u32 o; i64 f; if(!exactPtr(a[0],o,f)) fail("freeze"); S.frozen.push_back({o,f,f+AI(1)}); return true; }
  if(k=="thaw"){ S.frozen.clear(); return true; }
  if(k=="print_log"){ prnMode=1; prnBuf=a[0]; prnCap=AI(1); prnLen=a[2]; return true; }
  if(k=="print_ignore"){ prnMode=2; return true; }
  if(k=="malloc_residue"){ mallocResidue=(u32)AI(0); return true; }
  if(k=="malloc_fail"){ mallocFailAt=(int)AI(0); mallocCount=0; return true; } // index of the failing call, -2 = all
  if(k=="malloc_count"){ ret=mkInt(32,mallocCount); return true; }
  // fresh values for the library's static data: thread-local only (a new thread) or all of it (a new process)
  if(k=="new_thread"||k=="new_process"){ for(auto&g:M->globals()){ if(g.isConstant()||!g.hasInitializer()) continue; bool h=ofHarness(g); if(h||(k=="new_thread"&&!g.isThreadLocal())) continue; u32 o=gobj[&g]; *S.find(o)=*S0.find(o); } return true; }
  // what a frame leaves in static data and on the heap: remember it, then forget whatever has changed since
  if(k=="mark"){ marked=S.mem; return true; }
  if(k=="forget_changed"){ int n=0; for(auto&m:marked){ OI&oi=OBJ[m.first]; if(oi.cst||oi.stack) continue; bool lib=oi.heap||libData.count(m.first); if(!libData.count(0xffffffffu)){ for(auto&g:M->globals()) if(!g.isConstant()&&g.hasInitializer()&&!ofHarness(g)) libData.insert(gobj[&g]); libData.insert(0xffffffffu); lib=oi.heap||libData.count(m.first); } if(!lib) continue;
      Ref<Obj>*now=S.find(m.first); if(!now||*now==m.second) continue; Ref<Obj> cur=*now; Obj*w=nullptr;
      for(u64 i=0;i<oi.size;i++){ const Ent*x=entAt(m.second.p,i),*y=entAt(cur.p,i); if(x==y||(x&&y&&x->bi==y->bi&&(x->v==y->v||sameVal(x->v,y->v)))) continue; if(!(x&&y&&x->bi==y->bi)&&sameVal(byteAt(m.second.p,m.first,i),byteAt(cur.p,m.first,i))) continue; n++; if(!w) w=wobj(*now);
        u32 u=y&&y->v->w>=32&&i%4==0&&i+4<=oi.size?4:1; writeBytes(w,i,mkUndef(u*8),u); i+=u-1; } }
    ret=mkInt(32,n); return true; }
  if(k=="live_heap"){ int c=0; for(auto&m:S.mem) if(OBJ[m.first].heap) c++; ret=mkInt(32,c); return true; }
  if(k=="out_i"||k=="out_f"){ outLine("\""+jesc(cstr(S,a[0]))+"\","+valJson(rd(S,a[1]))); return true; }
  if(k=="dump"){ fprintf(stderr,"[dump %s] %s  vid=%s dep=%s\n",cstr(S,a[0]).c_str(),showVal(a[1]).c_str(),showVid(a[1]->vid,6).c_str(),depStr(a[1]->dep).c_str()); return true; }
  if(k=="dump_i"||k=="dump_f"){ fprintf(stderr,"[dump %s] %s  vid=%s dep=%s\n",cstr(S,a[0]).c_str(),showVal(a[1]).c_str(),showVid(a[1]->vid,6).c_str(),depStr(a[1]->dep).c_str()); return true; }
  if(k=="depends"){ // (ptr,bytes,name) -> 1 if any cell depends on an input with that exact name (or prefix ending in *)
    u32 dd=cellDeps(S,a[0],AI(1)); std::string nm=cstr(S,a[2]); bool r=false; for(u32 s:DEPS.v[dd]){ const std::string&q=SYMS[s].name; if(nm.size()&&nm.back()=='*'? q.compare(0,nm.size()-1,nm,0,nm.size()-1)==0 : q==nm) r=true; } ret=mkInt(32,r); return true; }
  if(k=="nodep"){ u32 dd=cellDeps(S,a[0],AI(1)); std::string nm=cstr(S,a[2]),m=cstr(S,a[3]); for(u32 s:DEPS.v[dd]){ const std::string&q=SYMS[s].name; if(nm.size()&&nm.back()=='*'? q.compare(0,nm.size()-1,nm,0,nm.size()-1)==0 : q==nm){ assertFail(m+" (depends on "+q+")"); break; } } oblCount["assertion"]++; return true; }
  if(k=="is_single"){ ret=mkInt(32,single(a[0])); return true; }
  if(k=="splitcap"){ SPLITCAP=(u32)AI(0); return true; }
  if(k=="calls_seen"){ std::string nm=cstr(S,a[0]); bool r=false; for(auto&f:funcsSeen) if(f==nm) r=true; ret=mkInt(32,r); return true; }
  fail("unknown intrinsic "+n); }

static bool model(const std::string&n,Fn&F,DI&d,State&S,std::vector<V>&a,V&ret){
  (void)F; if(aiIntrinsic(n,F,d,S,a,ret)) return true;
  if(d.tk==T_FLT||(d.tk==T_INT&&false)){ std::vector<V> b=a; bool fl=true; for(auto&x:b){ if(x->k==UNDEF) x=sane(x,T_FLT,d.w,n.c_str()); if(x->k==INT&&x->w==d.w) x=floatOfInt(x); if(x->k!=FLT) fl=false; } if(fl&&mathModel(n,b,ret)) return true; }
  if(n.rfind("llvm.memcpy",0)==0||n.rfind("llvm.memmove",0)==0||n=="memcpy"||n=="memmove"){ V len=argInt(a[2],64); if(single(len)) copyBytes(S,a[0],a[1],len->lo,"memcpy"); else fail("memcpy of unknown length"); ret=a[0]; return true; }
  if(n.rfind("llvm.memset",0)==0||n=="memset"){ V len=argInt(a[2],64); if(!single(len)) fail("memset of unknown length"); i64 nb=len->lo; if(nb>0){ V c=a[1]; if(c->w!=8) c=castOp(d,Instruction::Trunc,argInt(c,c->w),T_INT,8); auto ac=checkAcc(S,a[0],nb,true,"memset"); u32 o; i64 f; if(!ac.empty()){ if(exactPtr(a[0],o,f)&&ac[0].lo==f){ Obj*w=wobj(*S.find(o)); if(single(c)&&c->lo==0&&(f%4)==0&&nb%4==0){ V z=mkInt(32,0); for(i64 i=0;i<nb;i+=4) writeBytes(w,f+i,z,4);} else for(i64 i=0;i<nb;i++) writeBytes(w,f+i,c,1);} else for(i64 i=0;i<nb;i++) storeV(S,ptrShift(a[0],i),c,1,"memset"); } } ret=a[0]; return true; }
  if(n=="llvm.threadlocal.address.p0"){ ret=a[0]; return true; }
  if(n.rfind("llvm.lifetime",0)==0||n.rfind("llvm.dbg",0)==0||n=="llvm.stackrestore.p0"||n.rfind("llvm.assume",0)==0||n.rfind("llvm.prefetch",0)==0||n.rfind("llvm.donothing",0)==0) return true;
  if(n=="llvm.stacksave.p0"){ ret=mkNull(); return true; }
  if(n.rfind("llvm.expect",0)==0){ ret=a[0]; return true; }
  if(n.rfind("llvm.x86.sse.min.ps",0)==0||n.rfind("llvm.x86.sse.max.ps",0)==0){ bool mn=n.find("min")!=std::string::npos; V x=relayout(a[0],4,32,T_FLT),y=relayout(a[1],4,32,T_FLT); std::vector<V> e; for(int i=0;i<4;i++){ V p=sane(x->el[i],T_FLT,32,"SSE min/max"),q=sane(y->el[i],T_FLT,32,"SSE min/max"); V c=fcmpV(mn?CmpInst::FCMP_OLT:CmpInst::FCMP_OGT,p,q); e.push_back(selectV(S,c,p,q)); } ret=mkVec(e); return true; }
  if(n.rfind("llvm.x86.sse2.cvttps2dq",0)==0||n.rfind("llvm.x86.sse2.cvtps2dq",0)==0){ bool tr=n.find("cvttps")!=std::string::npos; V x=relayout(a[0],4,32,T_FLT); std::vector<V> e; for(int i=0;i<4;i++){ V v=sane(x->el[i],T_FLT,32,"SSE conversion"); bool in=!v->nan&&v->flo<=v->fhi&&v->flo>=-2147483648.0&&v->fhi<2147483648.0; if(!in){ e.push_back(topInt(32,NT.get(N_CAST,v->vid,tr?9108:9300,32),v->dep)); continue; } double l=tr?std::trunc(v->flo):rint(v->flo),h=tr?std::trunc(v->fhi):rint(v->fhi); e.push_back(mkIntR(32,(i64)l,(i64)h,tr?NT.get(N_CAST,v->vid,9110):NT.get(N_CAST,v->vid,9300,32),v->dep)); } ret=mkVec(e); return true; }
  if(n.rfind("llvm.x86.sse2.packssdw.128",0)==0){ V x=relayout(a[0],4,32,T_INT),y=relayout(a[1],4,32,T_INT); std::vector<V> e; for(int i=0;i<8;i++){ V v=toInt(i<4?x->el[i]:y->el[i-4],32); v=sane(v,T_INT,32,"SSE pack"); if(v->lo>=-32768&&v->hi<=32767) e.push_back(castOp(d,Instruction::Trunc,v,T_INT,16)); else { i64 l=std::max<i64>(-32768,std::min<i64>(32767,v->lo)),h=std::max<i64>(-32768,std::min<i64>(32767,v->hi)); e.push_back(mkIntR(16,l,h,NT.get(N_CAST,v->vid,9301,16),v->dep)); } } ret=mkVec(e); return true; }
  if(n.rfind("llvm.ctpop",0)==0||n.rfind("llvm.ctlz",0)==0||n.rfind("llvm.cttz",0)==0){ V x=argInt(a[0],d.w); bool pop=n[7]=='p'; (void)pop; if(single(x)){ u64 u=(u64)x->lo&uMask(d.w); i64 r; if(n.rfind("llvm.ctpop",0)==0) r=__builtin_popcountll(u); else if(n.rfind("llvm.ctlz",0)==0) r=u?__builtin_clzll(u)-(64-(int)d.w):d.w; else r=u?__builtin_ctzll(u):d.w; ret=mkInt(d.w,r);} else if(n.rfind("llvm.ctpop",0)==0){ auto f=formsOf(x.p); V s=mkInt(d.w,0); bool q1,q2,q3,q4,q5; u32 x0=0; bool unk=false; for(u32 i=0;i<f.size();i++){ if(f[i]==FU){unk=true;break;} x0=fXor(x0,f[i]); if(f[i]==0) continue; std::vector<u32> g(d.w,0); g[0]=f[i]; V b=f[i]==1?mkInt(d.w,1):mkBits(d.w,g,0,1,0,x->dep); s=intBin(Instruction::Add,s,b,q1,q2,q3,q4,q5); } if(unk) ret=mkIntR(d.w,0,d.w,NT.get(N_MODEL,5,x->vid),x->dep); else { auto g=formsOf(s.p); g[0]=x0; ret=single(s)?s:mkBits(d.w,g,s->lo,s->hi,s->vid,x->dep);} } else ret=mkIntR(d.w,0,d.w,NT.get(N_MODEL,n.rfind("llvm.ctlz",0)==0?6:7,x->vid),x->dep); return true; }
  if(n.rfind("llvm.abs",0)==0||n=="abs"||n=="labs"){ V x=argInt(a[0],d.w); if(x->lo==sMin(d.w)) report("overflow","abs of the most negative integer"); i64 l=x->lo,h=x->hi; if(l==sMin(d.w)) l++; i64 al=l<=0&&h>=0?0:std::min(std::llabs(l),std::llabs(h)),ah=std::max(std::llabs(l),std::llabs(h)); if(x->lo>=0) ret=x; else ret=mkIntR(d.w,al,ah,NT.get(N_MODEL,8,x->vid),x->dep); return true; }
  if(n.rfind("llvm.smax",0)==0||n.rfind("llvm.smin",0)==0||n.rfind("llvm.umax",0)==0||n.rfind("llvm.umin",0)==0){ V x=argInt(a[0],d.w),y=argInt(a[1],d.w); u32 pr=n[6]=='m'&&n[5]=='s'?(n.rfind("llvm.smax",0)==0?CmpInst::ICMP_SGT:CmpInst::ICMP_SLT):(n.rfind("llvm.umax",0)==0?CmpInst::ICMP_UGT:CmpInst::ICMP_ULT); ret=selectV(S,icmpV(pr,x,y),x,y); return true; }
  if(n=="malloc"||n=="calloc"||n=="aligned_alloc"||n=="posix_memalign"||n=="realloc"){ if(n=="posix_memalign"||n=="realloc"||n=="aligned_alloc") fail("allocator "+n+" not modelled"); i64 sz; V x=argInt(a[0],64); if(!single(x)) fail("allocation of unknown size"); sz=x->lo; if(n=="calloc"){ V y=argInt(a[1],64); if(!single(y)) fail("allocation of unknown size"); sz*=y->lo; } int idx=mallocCount++; if(mallocFailAt==-2||idx==mallocFailAt){ ret=mkNull(); return true; } if(sz<0||sz>(1<<26)) fail("allocation size"); OI o; o.name="heap block from "+F.name; o.size=sz; o.def=n=="calloc"?D_ZERO:D_UNINIT; o.heap=true; o.align=16; o.residue=mallocResidue; u32 id=OBJ.size(); OBJ.push_back(o); S.mem.push_back({id,newObj(sz)}); ret=ptrTo(id,0); return true; }
  if(n=="free"){ V p=a[0]; if(p->k!=PTR) p=asType(p,T_PTR,64,0,0,0); if(p->k!=PTR){ report("wild","free of a pointer of unknown origin"); return true; } obl("free"); for(auto&t:p->tg){ if(!t.obj) continue; if(!OBJ[t.obj].heap||t.lo!=0||t.hi!=0){ report("badfree","free of something that is not the start of a heap block: "+OBJ[t.obj].name); continue; } auto it=std::lower_bound(S.mem.begin(),S.mem.end(),t.obj,[](const std::pair<u32,Ref<Obj>>&x,u32 b){return x.first<b;}); if(it==S.mem.end()||it->first!=t.obj){ report("badfree","double free"); continue; } S.mem.erase(it); } return true; }
  if(n=="strtol"||n=="strtoul"||n=="strtoll"||n=="atoi"){ i64 base=10; V bs=n=="atoi"?mkInt(32,10):argInt(a[2],32); if(!single(bs)) fail("strtol base"); base=bs->lo; std::vector<u32> f; u32 dep=0; bool ok=true; i64 val=0; bool conc=true; u32 o; i64 off; V p=a[0]; if(p->k!=PTR||!exactPtr(p,o,off)) fail("strtol pointer"); for(i64 i=0;;i++){ V c=loadV(S,ptrShift(p,i),T_INT,8,0,0,0,"strtol"); if(c->k==UNDEF){ c=sane(c,T_INT,8,"strtol"); ok=false; break; } if(single(c)){ if(c->lo>='0'&&c->lo<'0'+base){ val=val*base+(c->lo-'0'); f.insert(f.begin(),(u32)(c->lo-'0')); continue; } break; } conc=false; dep=depUnion(dep,c->dep); auto g=formsOf(c.p); bool dig=base==2; static const int want[8]={-1,0,0,0,1,1,0,0}; for(int b=1;b<8;b++) if((int)g[b]!=want[b]) dig=false; if(!dig||g[0]==FU){ ok=false; break; } f.insert(f.begin(),g[0]); if(i>63){ok=false;break;} }
    if(!ok){ ret=topInt(d.w,NT.fresh(),dep); return true; } if(conc){ ret=mkInt(d.w,val); return true; } f.resize(64,0); f.resize(d.w); ret=mkBits(d.w,f,sMin(d.w),sMax(d.w),NT.fresh(),dep); return true; }
  if(n=="snprintf"||n=="sprintf"){ int fi=n=="snprintf"?2:1; i64 cap=INT64_MAX; if(n=="snprintf"){ V c=argInt(a[1],64); if(!single(c)) fail("snprintf size"); cap=c->lo; } std::vector<V> bytes=fmtBytes(S,d,a,fi,n); i64 wn=std::min<i64>((i64)bytes.size(),cap-1); if(cap>0){ for(i64 i=0;i<wn;i++) storeV(S,ptrShift(a[0],i),bytes[i],1,"snprintf"); storeV(S,ptrShift(a[0],wn),mkInt(8,0),1,"snprintf"); } ret=mkInt(32,(i64)bytes.size()); return true; }
  if(n=="strlen"){ i64 i=0; for(;;i++){ V c=loadV(S,ptrShift(a[0],i),T_INT,8,0,0,0,"strlen"); if(c->k==UNDEF){ sane(c,T_INT,8,"strlen"); break;} if(single(c)&&c->lo==0) break; if(!single(c)&&c->lo<=0&&c->hi>=0) fail("strlen of unknown string"); if(i>1000000) fail("strlen"); } ret=mkInt(64,i); return true; }
  if(n=="strcpy"||n=="strcat"||n=="strncpy"){ i64 off=0; if(n=="strcat"){ for(;;off++){ V c=loadV(S,ptrShift(a[0],off),T_INT,8,0,0,0,"strcat"); if(c->k==UNDEF){ sane(c,T_INT,8,"strcat"); break;} if(single(c)&&c->lo==0) break; if(!single(c)&&c->lo<=0&&c->hi>=0) fail("strcat"); if(off>1000000) fail("strcat"); } } i64 lim=INT64_MAX; if(n=="strncpy"){ V l=argInt(a[2],64); lim=l->lo; } bool z=false; for(i64 i=0;i<lim;i++){ V c=z?mkInt(8,0):loadV(S,ptrShift(a[1],i),T_INT,8,0,0,0,n.c_str()); storeV(S,ptrShift(a[0],off+i),c,1,n.c_str()); if(c->k!=INT) break; if(single(c)&&c->lo==0){ if(lim==INT64_MAX) break; z=true; } else if(!single(c)&&c->lo<=0&&c->hi>=0) fail(n+" of unknown string"); if(i>1000000) fail(n); } ret=a[0]; return true; }
  if(n=="memcmp"||n=="strcmp"||n=="strncmp"){ i64 lim=n=="strcmp"?1000000:argInt(a[2],64)->lo; bool unk=false; u32 dep=0; std::vector<u32> ids; i64 res=0; for(i64 i=0;i<lim;i++){ V x=loadV(S,ptrShift(a[0],i),T_INT,8,0,0,0,n.c_str()),y=loadV(S,ptrShift(a[1],i),T_INT,8,0,0,0,n.c_str()); x=sane(x,T_INT,8,n.c_str());y=sane(y,T_INT,8,n.c_str()); if(single(x)&&single(y)){ if(x->lo!=y->lo){ res=((u8)x->lo<(u8)y->lo)?-1:1; break;} if(n!="memcmp"&&x->lo==0) break; continue; } if(x->vid==y->vid&&n=="memcmp") continue; unk=true; dep=depUnion(dep,depUnion(x->dep,y->dep)); ids.push_back(x->vid); ids.push_back(y->vid); if(n!="memcmp") break; } if(unk) ret=mkIntR(32,-255,255,NT.get(N_MODEL,9,IDV.get(ids)),dep); else ret=mkInt(32,res); return true; }
  if(prnMode&&(n=="fprintf"||n=="printf"||n=="puts"||n=="fputs"||n=="fputc"||n=="putc"||n=="putchar"||n=="fwrite"||n=="fflush")){ obl("io"); if(prnMode==1&&n!="fflush"){ std::vector<V> bytes; size_t fi=n=="fprintf"?1:0;
      if(n=="fprintf"||n=="printf") bytes=fmtBytes(S,d,a,fi,n); else if(n=="fputc"||n=="putc"||n=="putchar") bytes.push_back(castOp(d,Instruction::Trunc,argInt(a[0],32),T_INT,8));
      else if(n=="fwrite"){ V x=argInt(a[1],64),y=argInt(a[2],64); if(!single(x)||!single(y)) fail("fwrite of unknown length"); for(i64 j=0;j<x->lo*y->lo;j++) bytes.push_back(sane(loadV(S,ptrShift(a[0],j),T_INT,8,0,0,0,"fwrite"),T_INT,8,"fwrite")); }
      else { for(i64 j=0;;j++){ V c=sane(loadV(S,ptrShift(a[0],j),T_INT,8,0,0,0,"fputs"),T_INT,8,"fputs"); if(single(c)&&c->lo==0) break; if(!single(c)&&c->lo<=0&&c->hi>=0) fail("printing a string of unknown length"); bytes.push_back(c); if(j>100000) fail("fputs"); } if(n=="puts") bytes.push_back(mkInt(8,10)); }
      V len=argInt(loadV(S,prnLen,T_INT,32,0,0,0,"print log"),32); if(!single(len)) fail("printed output of unknown length"); i64 at=len->lo; for(auto&b:bytes){ if(at>=prnCap) fail("print log full"); storeV(S,ptrShift(prnBuf,at++),b,1,"print log"); } storeV(S,prnLen,mkInt(32,at),4,"print log"); }
    if(d.dst>=0) ret=mkIntR(32,-1,INT32_MAX,NT.fresh(),0); return true; }
  if(n=="fprintf"||n=="printf"||n=="puts"||n=="fputs"||n=="fputc"||n=="putchar"||n=="fwrite"||n=="fflush"||n=="perror"||n=="vfprintf"){ obl("io"); report("io","call to "+n); if(d.dst>=0) ret=mkIntR(32,-1,INT32_MAX,NT.fresh(),0); return true; }
  if(n=="__assert_fail"||n=="abort"||n=="exit"||n=="_exit"||n=="llvm.trap"||n=="__builtin_trap"||n=="quick_exit"||n=="longjmp"){ report("abort","call to "+n+(n=="__assert_fail"?": assertion "+cstr(S,a[0]):"")); throw (int)1; }
  if(n=="lrintf"||n=="lrint"||n=="lroundf"||n=="lround"||n=="llrintf"){ V v=a[0]; if(v->nan||v->flo<-9e18||v->fhi>9e18){ report("float-to-int",n+" of "+showVal(v)); ret=topInt(d.w,NT.get(N_MODEL,modelId(n),v->vid),v->dep); return true; } auto f=[&](double x){ return n.find("rint")!=std::string::npos?rint(x):round(x); }; ret=mkIntR(d.w,(i64)f(v->flo),(i64)f(v->fhi),NT.get(N_MODEL,modelId(n),v->vid),v->dep); return true; }
  if(n=="__cpu_indicator_init"){ return true; }
  if(n.rfind("llvm.is.fpclass",0)==0){ u32 mask=(u32)argInt(a[1],32)->lo; V v=a[0]; if(v->k!=FLT) v=floatOfInt(toInt(v,32)); bool nan=v->nan,inf=v->flo<=v->fhi&&(std::isinf(v->flo)||std::isinf(v->fhi)); if((mask&3)==3&&(mask&~3u)==0){ if(!nan) {ret=mkBool(false);return true;} if(v->flo>v->fhi){ret=mkBool(true);return true;} ret=fcmpV(CmpInst::FCMP_UNO,v,v); return true; } (void)inf; ret=mkI1(NT.get(N_MODEL,900+mask,v->vid),v->dep); return true; }
  if(n=="isnan"||n=="__isnanf"||n=="__isnan"){ V b=fcmpV(CmpInst::FCMP_UNO,a[0],a[0]); ret=castOp(d,Instruction::ZExt,b,T_INT,32); return true; }
  if(n=="pthread_once"||n=="call_once") fail("threading primitive not modelled: "+n);
  bool ptrs=false; u32 dep=0; for(auto&x:a){ if(x->k==PTR||x->k==VEC) ptrs=true; dep=depUnion(dep,x->dep);} if(ptrs) fail("call to unmodelled external function "+n);
  report("external","call to unmodelled external function "+n); if(d.tk==T_INT) ret=topInt(d.w,NT.fresh(),dep); else if(d.tk==T_FLT) ret=topF(d.w,NT.fresh(),dep); else if(d.tk==T_PTR) ret=mkNull(); return true; }
static States callFn(Function*fn,State S,const std::vector<V>&args,int depth){
  if(depth>200) fail("call depth"); Fn&F=getFn(fn); funcsSeen.insert(F.name); callstack.push_back(F.name); u32 orig=S.path; S.path=0; std::vector<u32> savedObjs; savedObjs.swap(S.fobjs); std::vector<V> savedRegs; savedRegs.swap(S.regs); S.regs.assign(F.nregs,V()); for(size_t i=0;i<args.size()&&i<fn->arg_size();i++) S.regs[i]=args[i]; u32 pd=S.pathdep;
  States out; exec(F,0,-1,std::move(S),-1,out,depth+1); callstack.pop_back(); const Function*from=callstack.empty()?nullptr:M->getFunction(callstack.back()); if(from&&inHarness(from)&&!inHarness(fn)) lastLib=fn;
  // group exits that were not joined at a common block (functions with several ret instructions)
  if(out.size()>1){ std::map<std::string,States> g; for(auto&s:out){ std::string k=!F.splitRet?"":(s.ret&&s.ret->k==INT&&single(s.ret))?std::to_string(s.ret->lo):"?"; g[k].push_back(std::move(s)); } if(g.size()>SPLITCAP){ States all; for(auto&x:g) for(auto&s:x.second) all.push_back(std::move(s)); g.clear(); g[""]=std::move(all); } out.clear(); std::vector<u64> none; for(auto&x:g){ if(x.second.size()==1){ out.push_back(std::move(x.second[0])); continue; } State m; u32 dd=0; for(auto&s:x.second) dd=depUnion(dd,s.pathdep); u32 pp=x.second[0].path; for(auto&s:x.second) s.regs.clear(); mergeGroup(x.second,pp,dd,nullptr,m); out.push_back(std::move(m)); } }
  for(auto&s:out){ for(u32 id:s.fobjs){ auto it=std::lower_bound(s.mem.begin(),s.mem.end(),id,[](const std::pair<u32,Ref<Obj>>&x,u32 b){return x.first<b;}); if(it!=s.mem.end()&&it->first==id) s.mem.erase(it); } s.fobjs=savedObjs; s.regs=savedRegs; if(out.size()==1){ s.path=orig; s.pathdep=pd; } else s.path=NT.get(N_PATH+5001,orig,s.path); }
  return out; }
static States handleCall(Fn&F,DI&d,State&S,bool&simple,int depth){
  simple=true; size_t na=cast<CallBase>(d.I)->arg_size(); std::vector<V> args; args.reserve(na); for(size_t i=0;i<na;i++) args.push_back(d.o[i]==INT32_MIN?V():opv(F,S,d.o[i]));
  if(d.callee==-3){ auto*ia=cast<InlineAsm>(cast<CallBase>(d.I)->getCalledOperand()); if(ia->getAsmString().empty()) return {}; fail("inline assembly"); }
  std::vector<Function*> tg; if(d.callee>=0) tg.push_back(FNS[d.callee].F?FNS[d.callee].F:nullptr); 
  if(d.callee>=0&&!tg[0]){ fail("callee"); }
  if(d.callee==-2){ V r; for(auto&x:args) if(x&&x->und) x=sane(x,x->k==FLT?T_FLT:x->k==PTR?T_PTR:T_INT,x->w,"a call argument"); try { model(F.rn[d.model],F,d,S,args,r); } catch(int){ simple=false; return {}; } if(d.dst>=0){ if(!r) fail("model without result: "+F.rn[d.model]); S.regs[d.dst]=r; } return {}; }
  if(d.callee==-1){ V p=getP(F,S,d.o.back(),"indirect call"); for(auto&t:p->tg){ if(!t.obj){ report("null","call through a null function pointer"); continue; } if(!OBJ[t.obj].fn){ report("wild","call through a data pointer"); continue; } tg.push_back(OBJ[t.obj].fn); } if(tg.empty()){ simple=false; return {}; } obl("indirect-call"); }
  simple=false; States res; 
  if(tg.size()==1){ if(tg[0]->isDeclaration()){ V r; try{ model(tg[0]->getName().str(),F,d,S,args,r);}catch(int){return {};} if(d.dst>=0) S.regs[d.dst]=r; simple=true; return {}; } u32 sf=0; (void)sf; res=callFn(tg[0],std::move(S),args,depth); for(auto&s:res){ if(d.dst>=0){ if(!s.ret) fail("missing return value"); s.regs[d.dst]=s.ret; } s.ret=V(); } return res; }
  // several targets: merge the outcomes
  for(auto*t:tg){ if(t->isDeclaration()) fail("indirect call to external"); States r=callFn(t,S,args,depth); for(auto&s:r){ if(d.dst>=0) s.regs[d.dst]=s.ret; s.ret=V(); s.path=NT.get(N_PATH+5002,OBJ.size(),res.size()); res.push_back(std::move(s)); } }
  if(res.size()>1){ State m; u32 bp=S.path,bd=S.pathdep; mergeGroup(res,bp,bd,nullptr,m); States one; one.push_back(std::move(m)); return one; } return res; }

// ---------- driver ----------
static State initial(){ State S; S.mem.resize(1); S.mem[0].first=0; S.mem[0].second=newObj(0);
  for(auto&f:*M){ if(f.isDeclaration()&&f.isIntrinsic()) { } OI o; o.name=f.getName().str(); o.fn=&f; o.size=1; o.cst=true; gobj[&f]=OBJ.size(); OBJ.push_back(o); }
  for(auto&g:M->globals()){ OI o; o.name=g.getName().str(); size_t dot; (void)dot; o.size=DL->getTypeAllocSize(g.getValueType()); o.cst=g.isConstant(); o.tls=g.isThreadLocal(); o.def=g.isDeclaration()?D_TOP:D_ZERO; o.align=std::max<u64>(g.getAlign()?g.getAlign()->value():1,DL->getABITypeAlign(g.getValueType()).value()); if(o.size>=16) o.align=std::max<u64>(o.align,1); gobj[&g]=OBJ.size(); OBJ.push_back(o); }
  for(u32 i=1;i<OBJ.size();i++) S.mem.push_back({i,newObj(OBJ[i].fn?0:OBJ[i].size)});
  for(auto&g:M->globals()) if(g.hasInitializer()) initConst(S.mem[gobj[&g]].second.p,0,g.getInitializer());
  return S; }
static std::string argStr(int argc,char**argv,const char*k,const char*def){ for(int i=1;i+1<argc;i++) if(!strcmp(argv[i],k)) return argv[i+1]; return def; }
static int g_argc; static char**g_argv; static int g_rc=0;
static double now(){ timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }
static void writeResult(FILE*o,int lo,int hi,const std::string&err,double t0){
  fprintf(o,"{\"parts\":[%d,%d],\"error\":\"%s\",\"instructions\":%llu,\"seconds\":%.3f,\"functions\":[",lo,hi,jesc(err).c_str(),(unsigned long long)icount,now()-t0); bool f=true; for(auto&s:funcsSeen){ fprintf(o,"%s\"%s\"",f?"":",",jesc(s).c_str()); f=false; }
  fprintf(o,"],\"checks\":{"); f=true; for(auto&x:oblCount){ fprintf(o,"%s\"%s\":%llu",f?"":",",x.first.c_str(),(unsigned long long)x.second); f=false; }
  fprintf(o,"},\"sites\":["); f=true; std::set<std::string> ss; for(auto&x:oblSites) for(auto*p:x.second){ std::string file,fn; int line; locOf((Instruction*)p,file,line,fn); char b[512]; snprintf(b,512,"%s|%s|%llx",x.first.c_str(),fn.c_str(),0ull); (void)b; if(file.size()>5&&file.find("/harness/")!=std::string::npos) continue; size_t sl=file.rfind('/'); ss.insert(x.first+"|"+fn+"|"+(sl==std::string::npos?file:file.substr(sl+1))+":"+std::to_string(line)); } for(auto&x:ss){ fprintf(o,"%s\"%s\"",f?"":",",jesc(x).c_str()); f=false; }
  fprintf(o,"],\"findings\":["); f=true; for(auto&x:findings){ fprintf(o,"%s{\"cat\":\"%s\",\"file\":\"%s\",\"line\":%d,\"func\":\"%s\",\"msg\":\"%s\",\"stack\":\"%s\",\"part\":%d}",f?"":",",x.cat.c_str(),jesc(x.file).c_str(),x.line,jesc(x.func).c_str(),jesc(x.msg).c_str(),jesc(x.stack).c_str(),curPart); f=false; }
  fprintf(o,"],\"outs\":["); f=true; for(auto&x:OUTS){ fprintf(o,"%s[%s]",f?"":",",x.c_str()); f=false; } fprintf(o,"]}\n"); fflush(o); }

static std::string ckFile; static int ckLo; static double ckT0;
static void ckWrite(){ static int n=0; if(n++>=60) return; FILE*o=fopen(ckFile.c_str(),"w"); if(!o) return; writeResult(o,ckLo,curPart,"stopped: the analysis of this partition took too long after its first finding",ckT0); fclose(o); }
static void* mainThread(void*){
  int argc=g_argc; char**argv=g_argv; std::string entry=argStr(argc,argv,"--entry","harness"); int jobs=atoi(argStr(argc,argv,"--jobs","8").c_str()); std::string outf=argStr(argc,argv,"--out","/dev/stdout"); if(argStr(argc,argv,"--budget","")!="") budget=strtoull(argStr(argc,argv,"--budget","").c_str(),nullptr,10);
  int onlyLo=atoi(argStr(argc,argv,"--from","0").c_str()),onlyHi=atoi(argStr(argc,argv,"--to","-1").c_str()); int batchOpt=atoi(argStr(argc,argv,"--batch","0").c_str());
  for(auto&f:*M){ if(f.getName().starts_with("__stub_")) stubs[f.getName().str().substr(7)]=&f; }
  int k=0; for(auto&f:*M) if(!f.isDeclaration()){ fnIdx[&f]=k++; } FNS.resize(k); for(auto&x:fnIdx) FNS[x.second].F=(Function*)x.first;
  Function*H=M->getFunction(entry),*HP=M->getFunction(entry+"_parts"); if(!H||H->isDeclaration()){ fprintf(stderr,"no entry %s\n",entry.c_str()); g_rc=3; return nullptr; }
  double t0=now(); int parts=1; try { S0=initial(); if(HP){ States r=callFn(HP,S0,{},0); if(r.size()!=1||!single(r[0].ret)) fail("parts"); parts=(int)r[0].ret->lo; } } catch(AnalysisError&e){ fprintf(stderr,"init error: %s\n",e.m.c_str()); g_rc=3; return nullptr; }
  if(onlyHi<0||onlyHi>parts) onlyHi=parts; int lo=onlyLo,hi=onlyHi;
  int batch=batchOpt?batchOpt:std::max(1,(hi-lo)/(jobs*6)); if(batch>256&&!batchOpt) batch=256;
  FILE*o=fopen(outf.c_str(),"a"); if(!o){ perror("out"); g_rc=3; return nullptr; } fclose(o);
  int next=lo,run=0; bool bad=false; std::map<pid_t,std::pair<int,int>> kids;
  u64 budget0=budget;
  double firstHit=0; double patience=atof(argStr(argc,argv,"--patience","100").c_str()); { std::string oc=argStr(argc,argv,"--own",""),w; for(char c:oc+",") if(c==','){ if(w.size()) ownCats.insert(w); w.clear(); } else w+=c; }
  while(next<hi||run>0){ while(run<jobs&&next<hi){ int a=next,b=std::min(hi,next+batch); next=b; pid_t p=fork(); if(p==0){ { struct rlimit rl; rl.rlim_cur=rl.rlim_max=(rlim_t)7<<30; (void)rl; const char*mb=getenv("MBE_MEM"); rl.rlim_cur=rl.rlim_max=((rlim_t)(mb?atoi(mb):3500)<<20)+((rlim_t)6<<30); setrlimit(RLIMIT_AS,&rl); } std::string err; t0=now(); char tmp[4096]; snprintf(tmp,4096,"%s.%d",outf.c_str(),(int)getpid()); bool std_=outf=="/dev/stdout"; if(!std_){ ckFile=std::string(tmp)+".ck"; ckLo=a; ckT0=t0; checkpoint=ckWrite; } for(int q=a;q<b;q++){ curPart=q; callstack.clear(); mallocMode=0;mallocResidue=0;mallocCount=0;mallocFailAt=-1; SPLITCAP=24; budget=icount+budget0; try { std::vector<V> ar; if(H->arg_size()) ar.push_back(mkInt(32,q)); States r=callFn(H,S0,ar,0); if(r.empty()&&findings.empty()) fail("no path through the harness completes"); } catch(AnalysisError&e){ err="part "+std::to_string(q)+": "+e.m; std::string f,fn; int l; locOf(curI,f,l,fn); err+=" at "+f+":"+std::to_string(l)+" ("+fn+")"; break; } catch(std::bad_alloc&){ err="out of memory"; break; } if(findings.size()>=40) break; }
          if(!err.empty()||findings.size()>=40) b=curPart+1; FILE*oo=fopen(std_?"/dev/stdout":tmp,"w"); writeResult(oo,a,b,err,t0); fclose(oo); _exit(err.empty()?0:4); } 
        kids[p]={a,b}; run++; }
    int st; pid_t p; for(;;){ p=waitpid(-1,&st,WNOHANG); if(p!=0) break; usleep(5000); if(outf!="/dev/stdout"&&!firstHit) for(auto&kk:kids){ char tf[4096]; snprintf(tf,4096,"%s.%d.ck",outf.c_str(),(int)kk.first); struct stat sb; if(stat(tf,&sb)==0){ firstHit=now(); break; } }
      if(firstHit&&now()-firstHit>patience){ next=hi; for(auto&kk:kids) kill(kk.first,SIGKILL); } }
    if(p<0) break; run--; char tmp[4096]; snprintf(tmp,4096,"%s.%d",outf.c_str(),(int)p); std::string ck=std::string(tmp)+".ck"; if(!(WIFEXITED(st)&&(WEXITSTATUS(st)==0||WEXITSTATUS(st)==4))){ struct stat sb; if(stat(ck.c_str(),&sb)==0) rename(ck.c_str(),tmp); } unlink(ck.c_str()); if(outf!="/dev/stdout"){ FILE*in=fopen(tmp,"r"); FILE*oo=fopen(outf.c_str(),"a"); if(in){ char buf[65536]; size_t n; while((n=fread(buf,1,sizeof buf,in))>0) fwrite(buf,1,n,oo); fclose(in); unlink(tmp);} else { fprintf(oo,"{\"parts\":[%d,%d],\"error\":\"worker died (status %d)\",\"findings\":[],\"functions\":[],\"checks\":{},\"sites\":[],\"outs\":[],\"instructions\":0,\"seconds\":0}\n",kids[p].first,kids[p].second,st); } fclose(oo); } kids.erase(p); if(!(WIFEXITED(st)&&WEXITSTATUS(st)==0)) bad=true; }
  g_rc=bad?4:0; return nullptr; }
int main(int argc,char**argv){
  g_argc=argc;g_argv=argv; if(argc<2){ fprintf(stderr,"usage: mbeai file.bc [--entry f] [--out file] [--jobs n] [--from a --to b]\n"); return 3; }
  SMDiagnostic err; auto m=parseIRFile(argv[1],err,CTX); if(!m){ err.print("mbeai",errs()); return 3; } M=m.release(); DL=&M->getDataLayout();
  size_t stk=(size_t)6<<30; void*sp=mmap(nullptr,stk,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_STACK,-1,0); pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at,sp,stk); pthread_t th; if(pthread_create(&th,&at,mainThread,nullptr)){ perror("thread"); return 3; } pthread_join(th,nullptr); fflush(stdout); _exit(g_rc); }
