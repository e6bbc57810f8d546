// ---------- predecode ----------
static u8 tkOf(Type*T){ if(T->isVoidTy()) return T_VOID; if(T->isIntegerTy()) return T_INT; if(T->isFloatTy()||T->isDoubleTy()) return T_FLT; if(T->isPointerTy()) return T_PTR; if(T->isVectorTy()) return T_VEC; return T_STRUCT; }
static u32 wOf(Type*T){ if(T->isIntegerTy()) return T->getIntegerBitWidth(); if(T->isFloatTy()) return 32; if(T->isDoubleTy()||T->isPointerTy()) return 64; if(T->isVoidTy()||T->isMetadataTy()||T->isLabelTy()) return 0; return DL->getTypeSizeInBits(T); }
static u32 objOfGlobal(GlobalValue*g);
static V ptrTo(u32 obj,i64 off){ return mkPtr({{obj,off,off,1,0,(i64)OBJ[obj].size,0,(i64)OBJ[obj].size}},0); }
static V constVal(Constant*C);
static V gepConst(ConstantExpr*CE){ // constant gep over a constant base
  APInt off(64,0); auto*G=cast<GEPOperator>(CE); if(!G->accumulateConstantOffset(*DL,off)) fail("const gep"); V b=constVal(cast<Constant>(G->getPointerOperand())); i64 o=off.getSExtValue(); V r=cloneV(b); r->vid=0; Tgt t=b->tg[0]; t.lo+=o;t.hi+=o; t.ilo=t.blo;t.ihi=t.bhi; return mkPtr({t},0); }
static V constVal(Constant*C){
  Type*T=C->getType(); u8 tk=tkOf(T);
  if(auto*ci=dyn_cast<ConstantInt>(C)) return mkInt(ci->getBitWidth(),ci->getBitWidth()>64?0:ci->getSExtValue());
  if(auto*cf=dyn_cast<ConstantFP>(C)) return mkF(wOf(T),T->isFloatTy()?cf->getValueAPF().convertToFloat():cf->getValueAPF().convertToDouble());
  if(isa<ConstantPointerNull>(C)) return mkNull();
  if(isa<UndefValue>(C)){ if(tk==T_VEC||tk==T_STRUCT){ std::vector<V> e; if(auto*vt=dyn_cast<FixedVectorType>(T)){ for(unsigned i=0;i<vt->getNumElements();i++) e.push_back(mkUndef(wOf(vt->getElementType()))); } else for(unsigned i=0;i<T->getStructNumElements();i++) e.push_back(mkUndef(wOf(T->getStructElementType(i)))); return mkVec(e);} return mkUndef(wOf(T)); }
  if(auto*g=dyn_cast<GlobalValue>(C)) return ptrTo(objOfGlobal(g),0);
  if(tk==T_VEC){ std::vector<V> e; auto*vt=cast<FixedVectorType>(T); for(unsigned i=0;i<vt->getNumElements();i++) e.push_back(constVal(C->getAggregateElement(i))); return mkVec(e); }
  if(tk==T_STRUCT){ std::vector<V> e; for(unsigned i=0;;i++){ Constant*x=C->getAggregateElement(i); if(!x) break; e.push_back(constVal(x)); } return mkVec(e); }
  if(auto*ce=dyn_cast<ConstantExpr>(C)){ if(ce->getOpcode()==Instruction::GetElementPtr) return gepConst(ce); if(ce->isCast()) { V v=constVal(ce->getOperand(0)); return v; } }
  fail("constant kind"); }
static u32 objOfGlobal(GlobalValue*g){ auto it=gobj.find(g); if(it!=gobj.end()) return it->second; fail("global "+g->getName().str()); }
static void initConst(Obj*o,u64 off,Constant*C){
  Type*T=C->getType(); if(C->isNullValue()||isa<UndefValue>(C)) return;
  if(auto*ds=dyn_cast<ConstantDataSequential>(C)){ u64 es=ds->getElementByteSize(); for(unsigned i=0;i<ds->getNumElements();i++){ V v; if(ds->getElementType()->isIntegerTy()) v=mkInt(es*8,(i64)ds->getElementAsInteger(i)); else if(es==4) v=mkF(32,ds->getElementAsFloat(i)); else v=mkF(64,ds->getElementAsDouble(i)); writeBytes(o,off+i*es,v,es);} return; }
  if(auto*ca=dyn_cast<ConstantArray>(C)){ u64 es=DL->getTypeAllocSize(ca->getType()->getElementType()); for(unsigned i=0;i<ca->getNumOperands();i++) initConst(o,off+i*es,ca->getOperand(i)); return; }
  if(auto*cs=dyn_cast<ConstantStruct>(C)){ auto*sl=DL->getStructLayout(cs->getType()); for(unsigned i=0;i<cs->getNumOperands();i++) initConst(o,off+sl->getElementOffset(i),cs->getOperand(i)); return; }
  V v=constVal(C); u32 nb=(v->w+7)/8; if(T->isIntegerTy(1)) {v=mkInt(8,v->lo&1);nb=1;} writeBytes(o,off,v,nb); }
static Fn& getFn(Function*F){
  int i=fnIdx.at(F); Fn&f=FNS[i]; if(f.ready) return f; f.ready=true; f.F=F; f.name=F->getName().str();
  std::map<const Value*,int> reg; u32 n=0; for(auto&A:F->args()) reg[&A]=n++; std::map<BasicBlock*,int> bbi; int k=0;
  for(auto&B:*F){ bbi[&B]=k++; for(auto&I:B) if(!I.getType()->isVoidTy()) reg[&I]=n++; }
  f.nregs=n; std::map<const Value*,int> cidx;
  auto opn=[&](Value*v)->int{ auto it=reg.find(v); if(it!=reg.end()) return it->second; if(auto*c=dyn_cast<Constant>(v)){ auto jt=cidx.find(c); if(jt!=cidx.end()) return jt->second; V cv=constVal(c); f.consts.push_back(cv); int id=-(int)f.consts.size(); cidx[c]=id; return id; } return INT32_MIN; };
  PostDominatorTree PDT(*F);
  for(auto&B:*F){ BBI b; b.B=&B; b.first=f.in.size(); b.nphi=0; b.isRet=isa<ReturnInst>(B.getTerminator());
    for(auto&I:B){ if(isa<DbgInfoIntrinsic>(I)) continue; DI d; d.I=&I; d.op=I.getOpcode(); if(!I.getType()->isVoidTy()) d.dst=reg[&I]; Type*T=I.getType(); if(auto*si=dyn_cast<StoreInst>(&I)){ T=si->getValueOperand()->getType(); d.align=si->getAlign().value(); } if(auto*li=dyn_cast<LoadInst>(&I)) d.align=li->getAlign().value();
      if(isa<CmpInst>(I)) T=I.getOperand(0)->getType();
      d.tk=tkOf(T); d.w=wOf(T); if(auto*vt=dyn_cast<FixedVectorType>(T)){ d.n=vt->getNumElements(); d.ew=wOf(vt->getElementType()); d.etk=tkOf(vt->getElementType()); }
      if(auto*ph=dyn_cast<PHINode>(&I)){ b.nphi++; for(unsigned i=0;i<ph->getNumIncomingValues();i++){ d.o.push_back(opn(ph->getIncomingValue(i))); d.o.push_back(bbi[ph->getIncomingBlock(i)]); } }
      else if(auto*br=dyn_cast<BranchInst>(&I)){ if(br->isConditional()) d.o.push_back(opn(br->getCondition())); d.t=bbi[br->getSuccessor(0)]; if(br->isConditional()) d.f=bbi[br->getSuccessor(1)]; }
      else if(auto*sw=dyn_cast<SwitchInst>(&I)){ d.o.push_back(opn(sw->getCondition())); d.t=bbi[sw->getDefaultDest()]; for(auto&c:sw->cases()) d.cases.push_back({c.getCaseValue()->getSExtValue(),bbi[c.getCaseSuccessor()]}); }
      else if(auto*g=dyn_cast<GetElementPtrInst>(&I)){ d.o.push_back(opn(g->getPointerOperand())); bool first=true; i64 coff=0; i64 mlo=-1,mhi=-1; bool inMember=false; i64 arrEnd=-1; (void)arrEnd;
        Type*curT=g->getSourceElementType(); for(auto gi=gep_type_begin(g),ge=gep_type_end(g);gi!=ge;++gi){ Value*ix=gi.getOperand(); Type*prevT=curT; (void)prevT;
          if(StructType*st=gi.getStructTypeOrNull()){ unsigned fi=cast<ConstantInt>(ix)->getZExtValue(); i64 fo=DL->getStructLayout(st)->getElementOffset(fi); DI::GS x{-1,0,0,fo,-1,-1}; Type*ft=st->getElementType(fi); if(ft->isArrayTy()){ x.mlo=0; x.mhi=DL->getTypeAllocSize(ft);} d.gs.push_back(x); inMember=true; }
          else { i64 sc=DL->getTypeAllocSize(gi.getIndexedType()); i64 cnt=-1; if(!first){ if(auto*at=dyn_cast<ArrayType>(curT)) cnt=at->getNumElements(); else if(auto*vt=dyn_cast<FixedVectorType>(curT)) cnt=vt->getNumElements(); } int o=opn(ix); DI::GS x{(int)d.o.size(),sc,cnt,0,-1,-1}; d.o.push_back(o); d.gs.push_back(x); }
          if(!first) curT=gi.getIndexedType(); first=false; }
        (void)coff;(void)mlo;(void)mhi;(void)inMember; }
      else if(auto*cb=dyn_cast<CallBase>(&I)){ for(auto&a:cb->args()) { d.o.push_back(a->getType()->isMetadataTy()?INT32_MIN:opn(a)); } if(cb->isInlineAsm()) d.callee=-3; else if(Function*cf=cb->getCalledFunction()){ auto it=stubs.find(cf->getName().str()); std::string base=cf->getName().str(); size_t dot=base.find('.'); if(it==stubs.end()&&dot!=std::string::npos&&!cf->isDeclaration()) it=stubs.find(base.substr(0,dot)); if(it!=stubs.end()&&F->getName()!=it->second->getName()) cf=it->second; d.callee=cf->isDeclaration()?-2:fnIdx.at(cf); d.model=(u32)f.rn.size(); f.rn.push_back(cf->getName().str()); } else { d.o.push_back(opn(cb->getCalledOperand())); d.callee=-1; } }
      else { for(auto&o:I.operands()) d.o.push_back(opn(o.get())); }
      if(auto*ai=dyn_cast<AllocaInst>(&I)){ d.sz=DL->getTypeAllocSize(ai->getAllocatedType()); d.align=ai->getAlign().value(); }
      f.in.push_back(d); }
    b.last=f.in.size(); auto*node=PDT.getNode(&B); b.ipdom=-1; if(node&&node->getIDom()&&node->getIDom()->getBlock()) b.ipdom=bbi[node->getIDom()->getBlock()]; f.bb.push_back(b); }
  // liveness (just after phis)
  u32 W=(n+63)/64; for(auto&b:f.bb) b.live.assign(W,0); bool ch=true;
  auto setb=[&](std::vector<u64>&v,int r){ if(r>=0&&r!=INT32_MIN) v[r>>6]|=1ull<<(r&63); };
  while(ch){ ch=false; for(int bi=(int)f.bb.size()-1;bi>=0;bi--){ BBI&b=f.bb[bi]; std::vector<u64> L(W,0); for(auto*s:successors(b.B)){ int si=bbi[s]; BBI&sb=f.bb[si]; std::vector<u64> t=sb.live; for(int q=0;q<sb.nphi;q++){ int dd=f.in[sb.first+q].dst; t[dd>>6]&=~(1ull<<(dd&63)); } for(u32 q=0;q<W;q++) L[q]|=t[q]; for(int q=0;q<sb.nphi;q++){ auto&o=f.in[sb.first+q].o; for(size_t z=0;z<o.size();z+=2) if(o[z+1]==bi) setb(L,o[z]); } }
      for(int q=b.last-1;q>=b.first+b.nphi;q--){ DI&d=f.in[q]; if(d.dst>=0) L[d.dst>>6]&=~(1ull<<(d.dst&63)); for(int o:d.o) setb(L,o); }
      for(u32 q=0;q<W;q++) if(L[q]&~b.live[q]){ b.live[q]|=L[q]; ch=true; } } }
  // keep return states apart when some caller branches on the returned code
  if(F->getReturnType()->isIntegerTy()) for(auto*U:F->users()) if(auto*cb=dyn_cast<CallBase>(U)) for(auto*UU:cb->users()) if(isa<ICmpInst>(UU)||isa<SwitchInst>(UU)) f.splitRet=true;
  return f; }

// ---------- execution ----------
typedef std::vector<State> States;
static void exec(Fn&F,int bbi,int ip,State S,int until,States&out,int depth);
static States callFn(Function*fn,State S,const std::vector<V>&args,int depth);
static State*CS=nullptr;
static inline V opv(Fn&F,State&S,int o){ CS=&S; if(o<0) return F.consts[-o-1]; const V&v=S.regs[o]; if(!v) fail("register without value in "+F.name); return S.bloom?rd(S,v):v; }
static V sane(const V&v,u8 tk,u32 w,const char*what){ // uninitialised use
  if(v->und){ if(!(CS&&v->und!=FU&&knownForm(*CS,v->und)==0)) report("uninit",std::string("possibly uninitialised value used by ")+what); return clean(v); }
  if(v->k==UNDEF){ report("uninit",std::string("uninitialised value used by ")+what); return tk==T_FLT?topF(w,NT.fresh(),0):tk==T_PTR?mkNull():topInt(w>64?64:w,NT.fresh(),0);} return v; }
static V getI(Fn&F,State&S,int o,u32 w,const char*what){ V v=opv(F,S,o); if(v->und) v=sane(v,T_INT,w,what); if(v->k==INT&&v->w==w) return v; if(v->k==UNDEF) return sane(v,T_INT,w,what); if(v->k==INT&&v->w!=w) fail("int width"); v=toInt(v,w); return sane(v,T_INT,w,what); }
static V getFl(Fn&F,State&S,int o,u32 w,const char*what){ V v=opv(F,S,o); if(v->und) v=sane(v,T_FLT,w,what); if(v->k==FLT) return v; if(v->k==UNDEF) return sane(v,T_FLT,w,what); if(v->k==INT) return floatOfInt(v); v=toInt(v,w); v=sane(v,T_INT,w,what); return floatOfInt(v); }
static V getP(Fn&F,State&S,int o,const char*what){ V v=opv(F,S,o); if(v->und) v=sane(v,T_PTR,64,what); if(v->k==PTR) return v; if(v->k==UNDEF) return sane(v,T_PTR,64,what); V x=asType(v,T_PTR,64,0,0,0); if(x->k!=PTR){ report("wild","pointer of unknown origin used by "+std::string(what)); return mkNull(); } return x; }
// checked access range; returns usable targets
struct Acc { u32 obj; i64 lo,hi,step; };
static std::vector<Acc> checkAcc(State&S,const V&p,u64 nb,bool write,const char*what){
  std::vector<Acc> r; obl("memory");
  for(auto&t:p->tg){ if(t.obj==0){ report("null",std::string(what)+" through a null"+(p->tg.size()>1?" (on some path)":"")+" pointer"); continue; }
    OI&o=OBJ[t.obj]; if(o.fn){ report("oob",std::string(what)+" of function memory"); continue; }
    if(!S.find(t.obj)){ report("dangling",std::string(what)+" of '"+o.name+"' after its lifetime ended"); continue; }
    i64 lo=std::max<i64>(std::max(t.blo,t.ilo),0),hi=std::min<i64>(std::min(t.bhi,t.ihi),(i64)o.size);
    if(t.lo<lo||t.hi+(i64)nb>hi){ char b[256]; snprintf(b,256,"%s of %llu bytes at offset %lld..%lld of '%s', valid range [%lld,%lld)",what,(unsigned long long)nb,(long long)t.lo,(long long)t.hi,o.name.c_str(),(long long)lo,(long long)hi); report("oob",b); }
    if(write&&o.cst) { report("constwrite",std::string(what)+" to constant '"+o.name+"'"); continue; }
    if(write) for(auto&z:S.frozen) if(z.obj==t.obj&&t.lo<z.hi&&t.hi+(i64)nb>z.lo){ report("frozen",std::string(what)+" modifies '"+o.name+"', which the harness declared read-only"); break; }
    i64 l=t.lo,h=t.hi,st=t.step>0?t.step:1; if(l<0){ i64 q=(-l+st-1)/st; l+=q*st; } if(h+(i64)nb>(i64)o.size) h=(i64)o.size-(i64)nb; if(h>=l) h=l+(h-l)/st*st; if(h<l) continue; r.push_back({t.obj,l,h,st}); }
  return r; }
static V loadV(State&S,const V&p,u8 tk,u32 w,u32 n,u32 ew,u8 etk,const char*what,u32 align=1){
  u32 nb=(w+7)/8; auto ac=checkAcc(S,p,nb,false,what);
  if(ac.empty()) return tk==T_FLT?topF(w,NT.fresh(),p->dep):tk==T_PTR?mkNull():tk==T_INT&&w<=64?topInt(w,NT.fresh(),p->dep):mkUndef(w);
  if(ac.size()==1&&ac[0].lo==ac[0].hi){ V v=readVal(S.find(ac[0].obj)->p,ac[0].obj,ac[0].lo,tk,w,n,ew,etk); if(v->k==INT&&OBJ[ac[0].obj].def==D_TOP&&!entAt(S.find(ac[0].obj)->p,ac[0].lo)){} return S.bloom?rd(S,v):v; }
  V r; std::vector<u32> ids; bool allc=true; u32 vobj=ac[0].obj; u64 cnt=0;
  for(auto&a:ac){ if(!OBJ[a.obj].cst) allc=false; Obj*o=S.find(a.obj)->p; for(i64 f=a.lo;f<=a.hi;f+=a.step){ if(++cnt>20000) fail("abstract load too wide"); V v=readVal(o,a.obj,f,tk,w,n,ew,etk); if(v->k==UNDEF){ v=tk==T_VEC?v:v; } ids.push_back(v->vid); if(!r) r=v; else if(v!=r){ if(r->k==INT&&v->k==INT&&!r->und&&!v->und){ u32 d=depUnion(r->dep,v->dep); r=mkIntR(w,std::min(r->lo,v->lo),std::max(r->hi,v->hi),0,d); if(single(r)) {} } else r=joinVal(r,v,FU,0); if(r->k==UNDEF) break; } } }
  if(r->k==UNDEF){ return r; }
  bool same=true; for(u32 i:ids) if(i!=ids[0]) same=false; if(same){ return r; }
  u32 vid=NT.get(N_LOOK,IDV.get(ids),ac.size()==1?addrKey(p->vid,ac[0].lo):IDV.get({p->vid}),w); r=cloneV(r); r->vid=vid; r->pv=Ref<Prov>(); r->alt=V(); r->bits=Ref<Bits>(); r->dep=depUnion(r->dep,p->dep); return r; }
// condition under which a pointer selected by branches denotes one address
static u32 ptrAtForm(u32 vid,u32 obj,i64 off,int d=0){ Node n=NT.n[vid]; if(d>200) return FU; if(n.op==N_PTR){ auto&h=IDV.v[n.a]; return h[0]==obj&&(i64)(int)h[1]==off?1:0; } if(n.op==N_ITE){ u32 x=ptrAtForm(n.b,obj,off,d+1),y=ptrAtForm(n.c,obj,off,d+1); if(x==FU||y==FU||n.a==FU) return FU; return fIte(n.a,x,y); } if(n.op==N_BIN+980) return ptrAtForm(n.a,obj,off-(i64)(n.b|((u64)n.c<<32)),d+1); return FU; }
static void storeV(State&S,const V&p,const V&v,u32 nb,const char*what){
  auto ac=checkAcc(S,p,nb,true,what); if(ac.empty()) return;
  if(ac.size()==1&&ac[0].lo==ac[0].hi){ writeBytes(wobj(*S.find(ac[0].obj)),ac[0].lo,v,nb); return; }
  u64 cnt=0; for(auto&a:ac){ Obj*o=wobj(*S.find(a.obj)); for(i64 f=a.lo;f<=a.hi;f+=a.step){ if(++cnt>20000) fail("abstract store too wide"); u8 tk=v->k==FLT?T_FLT:v->k==PTR?T_PTR:v->k==VEC?T_VEC:T_INT; V old=readVal(o,a.obj,f,tk,v->w,v->k==VEC?v->el.size():0,v->k==VEC?v->el[0]->w:0,v->k==VEC&&v->el[0]->k==FLT?T_FLT:T_INT); u32 c=ptrAtForm(p->vid,a.obj,f); if(c==FU) c=fSym(symForVid(ac.size()==1?NT.get(N_BIN+950,addrKey(p->vid,f),0,0):NT.get(N_BIN+950,p->vid,a.obj,(u32)f),p->dep)); if(c==0) continue; writeBytes(o,f,joinVal(v,old,c,p->dep),nb); } } }
static void ovCheck(Fn&F,DI&d,bool ovS,bool ovU,bool div0,bool sdo,bool bs,const V&a,const V&b){
  if(div0) report("div0","division by a value that can be zero: "+showVal(b)); if(sdo) report("overflow","INT_MIN / -1"); if(bs) report("shift","shift amount out of range: "+showVal(b));
  if(auto*ob=dyn_cast<OverflowingBinaryOperator>(d.I)) if(ob->hasNoSignedWrap()){ obl("overflow"); if(ovS) report("overflow",std::string("signed overflow in ")+d.I->getOpcodeName()+": "+showVal(a)+" , "+showVal(b)); } 
  if(d.op==Instruction::SDiv||d.op==Instruction::SRem||d.op==Instruction::UDiv||d.op==Instruction::URem) obl("div0"); if(d.op==Instruction::Shl||d.op==Instruction::LShr||d.op==Instruction::AShr) obl("shift"); (void)F;(void)ovU; }
static V ptrShift(const V&p,i64 k){ std::vector<Tgt> t=p->tg; for(auto&x:t){ x.lo+=k;x.hi+=k; x.ilo=x.blo;x.ihi=x.bhi; } V r=mkPtr(t,p->dep); if(NT.n[r->vid].op!=N_PTR) r->vid=NT.get(N_BIN+980,p->vid,(u32)k,(u32)((u64)k>>32)); return r; }
static V intOp(Fn&F,DI&d,const V&a,const V&b){
  bool ovS=false,ovU=false,z=false,so=false,bs=false; u32 op=d.op; V r;
  // masks built by sign-extending a comparison
  if(op==Instruction::And){ for(int sw=0;sw<2;sw++){ const V&m=sw?b:a,&x=sw?a:b; if(!single(m)&&m->alt&&m->alt->k==INT&&m->alt->w==1&&m->lo==-1&&m->hi==0){ V zero=mkInt(x->w,0); if(x->alt&&x->alt->k==FLT) zero=cloneV(zero),zero->alt=mkF(x->w,0.0); u32 c=formsOf(m->alt.p)[0]; if(c==FU) c=fSym(symForVid(m->alt->vid,m->alt->dep)); V q=joinVal(x,zero,c,m->alt->dep,&m->alt); if(!single(q)) q=setProv(q,P_ITE,1,m->alt,x,zero); return q; } } }
  if(op==Instruction::Or&&a->pv&&b->pv&&a->pv->kind==P_ITE&&b->pv->kind==P_ITE){ Prov*p=a->pv.p,*q=b->pv.p; u32 f1=formsOf(p->a.p)[0],f2=formsOf(q->a.p)[0]; auto z0=[](const V&v){ return single(v)&&v->lo==0; }; if(f1!=FU&&f2!=FU){ if(f1==(f2^1)){ if(z0(p->c)&&z0(q->c)) return joinVal(p->b,q->b,f1,p->a->dep,&p->a); } if(f1==f2){ if(z0(p->c)&&z0(q->b)) return joinVal(p->b,q->c,f1,p->a->dep,&p->a); if(z0(p->b)&&z0(q->c)) return joinVal(q->b,p->c,f1,p->a->dep,&p->a); } } }
  if(b->alt&&b->alt->k==FLT&&!(a->alt&&a->alt->k==FLT)&&single(a)&&(op==Instruction::And||op==Instruction::Xor)) return intOp(F,d,b,a);
  if(a->alt&&a->alt->k==FLT&&single(b)&&(op==Instruction::And||op==Instruction::Xor)){ u32 w=a->w; u64 c=(u64)b->lo&uMask(w),sign=1ull<<(w-1); if(op==Instruction::And&&c==sign-1){ const V&f=a->alt; if(f->flo>=0&&f->flo<=f->fhi) return a; double lo=f->flo<=0&&f->fhi>=0?0:std::min(std::fabs(f->flo),std::fabs(f->fhi)),hi=std::max(std::fabs(f->flo),std::fabs(f->fhi)); V g=mkFR(w,lo,hi,f->nan,NT.get(N_MODEL,1,f->vid),f->dep); g=setProv(g,P_FABS,0,f); return intOfFloat(g);} if(op==Instruction::Xor&&c==sign){ const V&f=a->alt; V g=mkFR(w,-f->fhi,-f->flo,f->nan,NT.get(N_MODEL,2,f->vid),f->dep); return intOfFloat(g);} }
  r=intBin(op,a,b,ovS,ovU,z,so,bs); ovCheck(F,d,ovS,ovU,z,so,bs,a,b);
  // pointers behind integers
  const V*pa=nullptr; i64 k=0; if(a->alt&&a->alt->k==PTR&&single(b)){ if(op==Instruction::Add){pa=&a;k=b->lo;} else if(op==Instruction::Sub){pa=&a;k=-b->lo;} else if(op==Instruction::And&&b->lo<0&&((~(u64)b->lo)&((~(u64)b->lo)+1))==0){ auto f=formsOf(a.p); u64 m=~(u64)b->lo,low=0; bool ok=true; for(u32 i=0;i<64;i++) if(m>>i&1){ if(f[i]<2) low|=(u64)f[i]<<i; else ok=false; } if(ok){pa=&a;k=-(i64)low;} } }
  else if(b->alt&&b->alt->k==PTR&&single(a)&&op==Instruction::Add){pa=&b;k=a->lo;}
  if(pa&&!single(r)){ r=cloneV(r); r->alt=ptrShift((*pa)->alt,k); }
  if(op==Instruction::Sub&&a->alt&&b->alt&&a->alt->k==PTR&&b->alt->k==PTR&&a->alt->tg.size()==1&&b->alt->tg.size()==1&&a->alt->tg[0].obj==b->alt->tg[0].obj){ auto&x=a->alt->tg[0];auto&y=b->alt->tg[0]; return mkIntR(64,x.lo-y.hi,x.hi-y.lo,r->vid,r->dep); }
  if(!single(r)&&!r->pv&&single(b)&&(op==Instruction::Add)) r=setProv(r,P_BIN,op,a,b); else if(!single(r)&&!r->pv&&single(a)&&op==Instruction::Add) r=setProv(r,P_BIN,op,b,a); else if(!single(r)&&!r->pv&&single(b)&&op==Instruction::Sub&&b->lo!=INT64_MIN) r=setProv(r,P_BIN,Instruction::Add,a,mkInt(a->w,-b->lo));
  if(!single(r)&&op==Instruction::Xor&&r->w==1){} 
  return r; }
// a float truncated to an integer it fits in is one mathematical integer, whatever width carries it
static inline bool fInt(const V&a){ const Node&n=NT.n[a->vid]; return n.op==N_CAST&&n.b==9110; }
static V castOp(DI&d,u32 op,const V&a,u8 dtk,u32 dw){
  u32 sw=a->w; switch(op){
  case Instruction::ZExt: { if(single(a)) return mkInt(dw,(i64)((u64)a->lo&uMask(sw))); auto f=formsOf(a.p); f.resize(dw,0); i64 lo,hi; if(a->lo>=0){lo=a->lo;hi=a->hi;} else {lo=0;hi=(i64)uMask(sw);} u32 vid=a->lo>=0||true?NT.get(N_CAST,a->vid,9100,dw):0; if(a->lo>=0) vid=fInt(a)?a->vid:NT.get(N_CAST,a->vid,9101,dw); V r= (a->bits||sw==1)?mkBits(dw,f,lo,hi,vid,a->dep):mkIntR(dw,lo,hi,vid,a->dep); if(single(r)) return r; r=setProv(r,P_CASTI,1,a); r->alt=a; return r; }
  case Instruction::SExt: { if(single(a)) return mkInt(dw,a->lo); auto f=formsOf(a.p); u32 s=f.back(); f.resize(dw,s); u32 vid=fInt(a)?a->vid:a->lo>=0?NT.get(N_CAST,a->vid,9101,dw):NT.get(N_CAST,a->vid,9102,dw); V r=(a->bits||sw==1)?mkBits(dw,f,a->lo,a->hi,vid,a->dep):mkIntR(dw,a->lo,a->hi,vid,a->dep); if(single(r)) return r; r=setProv(r,P_CASTI,0,a); r->alt=a; return r; }
  case Instruction::Trunc: { if(single(a)) return mkInt(dw,a->lo); // undo an extension
      if(a->alt&&a->alt->k==INT&&a->alt->w==dw&&a->pv&&a->pv->kind==P_CASTI) return a->alt;
      auto f=formsOf(a.p); f.resize(dw); bool fit=a->lo>=sMin(dw)&&a->hi<=sMax(dw); bool fu=!fit&&a->lo>=0&&(u64)a->hi<=uMask(dw); (void)fu; if(fit&&fInt(a)&&dw>1) return mkIntR(dw,a->lo,a->hi,a->vid,a->dep); V r=a->bits?mkBits(dw,f,fit?a->lo:sMin(dw),fit?a->hi:sMax(dw),NT.get(N_CAST,a->vid,9103,dw),a->dep):mkIntR(dw,fit?a->lo:sMin(dw),fit?a->hi:sMax(dw),NT.get(N_CAST,a->vid,9103,dw),a->dep); if(dw==1&&!single(r)&&formsOf(r.p)[0]==FU) r=mkI1(r->vid,r->dep); if(!single(r)&&fit&&dw>1) { r=setProv(r,P_CASTI,2,a); r->alt=a; } return r; }
  case Instruction::FPExt: { if(single(a)||NT.n[a->vid].op==N_CF) return mkF(dw,a->flo>a->fhi?NAN:a->flo); V r=mkFR(dw,a->flo,a->fhi,a->nan,NT.get(N_CAST,a->vid,9104),a->dep); return setProv(r,P_CASTF,0,a); }
  case Instruction::FPTrunc: { if(single(a)||NT.n[a->vid].op==N_CF) return mkF(dw,a->flo>a->fhi?NAN:(double)(float)a->flo); if(a->pv&&a->pv->kind==P_CASTF&&a->pv->a->k==FLT&&a->pv->a->w==dw) return a->pv->a; V r=mkFR(dw,(double)(float)a->flo,(double)(float)a->fhi,a->nan,NT.get(N_CAST,a->vid,9105),a->dep); return setProv(r,P_CASTF,1,a); }
  case Instruction::SIToFP: { if(single(a)) return mkF(dw,fround_(dw,(double)a->lo)); return mkFR(dw,fround_(dw,(double)a->lo),fround_(dw,(double)a->hi),false,NT.get(N_CAST,a->vid,9106,dw),a->dep); }
  case Instruction::UIToFP: { if(single(a)) return mkF(dw,fround_(dw,(double)((u64)a->lo&uMask(sw)))); double lo=0,hi=(double)uMask(sw); if(a->lo>=0){lo=(double)a->lo;hi=(double)a->hi;} return mkFR(dw,fround_(dw,lo),fround_(dw,hi),false,a->lo>=0?NT.get(N_CAST,a->vid,9106,dw):NT.get(N_CAST,a->vid,9107,dw),a->dep); }
  case Instruction::FPToSI: case Instruction::FPToUI: { obl("float-to-int"); bool u=op==Instruction::FPToUI; u32 iv=a->vid; if(NT.n[iv].op==N_MODEL&&NT.n[iv].b&&!NT.n[iv].c){ static u32 tr=modelId("trunc"),fl=modelId("floor"),ce=modelId("ceil"); u32 m=NT.n[iv].a; if(m==tr||(m==fl&&a->flo>=0)||(m==ce&&a->fhi<=0)) iv=NT.n[iv].b; } /* the conversion truncates anyway */ double mn=u?-1:-(double)(1ull<<(dw-1)),mx=u?std::ldexp(1.0,dw):std::ldexp(1.0,dw-1); bool bad=a->nan||(a->flo<=a->fhi&&(!(u?a->flo>mn:a->flo>=mn||a->flo>mn-1)||!(a->fhi<mx))); if(bad) report("float-to-int","conversion of "+showVal(a)+" to a "+std::to_string(dw)+"-bit integer can be out of range"); if(a->flo>a->fhi) return topInt(dw,NT.get(N_CAST,iv,9108,dw),a->dep); double l=std::max(std::trunc(a->flo),u?0.0:mn),h=std::min(std::trunc(a->fhi),u?mx-1:mx-1); i64 L=l>=9.2e18?INT64_MAX:l<=-9.2e18?INT64_MIN:(i64)l,H=h>=9.2e18?INT64_MAX:h<=-9.2e18?INT64_MIN:(i64)h; if(u&&dw==64){} if(u&&dw<64&&H>sMax(dw)){ return topInt(dw,NT.get(N_CAST,iv,9109,dw),a->dep);} if(L>H) return topInt(dw,NT.fresh(),a->dep); return mkIntR(dw,L,H,bad?NT.get(N_CAST,iv,u?9109:9108,dw):NT.get(N_CAST,iv,9110),a->dep); }
  case Instruction::PtrToInt: { V r=toInt(a,64); if(dw!=64) fail("ptrtoint width"); return r; }
  case Instruction::IntToPtr: { if(a->alt&&a->alt->k==PTR) return a->alt; if(single(a)&&a->lo==0) return mkNull(); report("wild","integer of unknown origin converted to a pointer"); return mkNull(); }
  } (void)d;(void)dtk; fail("cast"); }
static V negF(const V&a){ if(a->flo>a->fhi) return a; if(single(a)||NT.n[a->vid].op==N_CF) return mkF(a->w,-a->flo); return setProv(mkFR(a->w,-a->fhi,-a->flo,a->nan,NT.get(N_MODEL,2,a->vid),a->dep),P_FNEG,0,a); }
static V ptrCmp(u32 pred,const V&a,const V&b){
  bool eq=pred==CmpInst::ICMP_EQ,ne=pred==CmpInst::ICMP_NE; u32 d=depUnion(a->dep,b->dep);
  if(a->vid==b->vid&&(eq||ne)) return mkBool(eq);
  bool may=false,must=a->tg.size()==1&&b->tg.size()==1; for(auto&x:a->tg) for(auto&y:b->tg) if(x.obj==y.obj&&x.lo<=y.hi&&x.hi>=y.lo){ may=true; if(x.lo!=x.hi||y.lo!=y.hi) must=false; } if(!may) must=false;
  if(eq||ne){ if(!may) return mkBool(ne); if(must) return mkBool(eq); u32 x=a->vid,y=b->vid; if(x>y) std::swap(x,y); V r=mkI1(NT.get(N_BIN+900,x,y),d); if(ne) r=notV(r); r=setProv(r,P_ICMP,pred,a,b); return r; }
  if(a->tg.size()==1&&b->tg.size()==1&&a->tg[0].obj==b->tg[0].obj){ V x=mkIntR(64,a->tg[0].lo,a->tg[0].hi,NT.get(N_CAST,a->vid,9200),a->dep),y=mkIntR(64,b->tg[0].lo,b->tg[0].hi,NT.get(N_CAST,b->vid,9200),b->dep); u32 sp=pred; switch(pred){case CmpInst::ICMP_ULT: sp=CmpInst::ICMP_SLT;break;case CmpInst::ICMP_ULE: sp=CmpInst::ICMP_SLE;break;case CmpInst::ICMP_UGT: sp=CmpInst::ICMP_SGT;break;case CmpInst::ICMP_UGE: sp=CmpInst::ICMP_SGE;break;} return icmpV(sp,x,y); }
  return mkI1(NT.get(N_BIN+960+pred,a->vid,b->vid),d); }
static u32 cform(const V&c){ u32 f=formsOf(c.p)[0]; if(f==FU) f=fSym(symForVid(c->vid,c->dep)); return f; }
static V selectV(State&S,const V&c,const V&t,const V&f){ if(single(c)) return c->lo?t:f; int k=knownForm(S,formsOf(c.p)[0]); if(k>=0) return k?t:f; V tt=t,ff=f; { State A,B; A.facts=S.facts;A.bloom=S.bloom;A.known=S.known; B=A; bool fa=assume(A,c,true),fb=assume(B,c,false); if(!fa&&!fb) return t; if(!fa) return rd(B,f); if(!fb) return rd(A,t); tt=rd(A,t); ff=rd(B,f); } return joinVal(tt,ff,cform(c),c->dep,&c); }

static bool enter(Fn&F,State&S,int from,int to){ BBI&b=F.bb[to]; if(b.nphi){ std::vector<V> nv(b.nphi); for(int q=0;q<b.nphi;q++){ auto&o=F.in[b.first+q].o; bool ok=false; for(size_t z=0;z<o.size();z+=2) if(o[z+1]==from){ V v; if(o[z]<0) v=F.consts[-o[z]-1]; else { v=S.regs[o[z]]; if(v) v=rd(S,v);} nv[q]=v; ok=true; break; } if(!ok) fail("phi"); } for(int q=0;q<b.nphi;q++) S.regs[F.in[b.first+q].dst]=nv[q]; } return true; }
// merge the states that reached block J
static void mergeGroup(States&v,u32 basePath,u32 baseDep,const std::vector<u64>*live,State&outS){ State cur=std::move(v[0]); for(size_t i=1;i<v.size();i++){ u32 c=selForm(cur,v[i]); u32 cd=depUnion(cur.pathdep,v[i].pathdep); u32 np=NT.get(N_PATH+5000,cur.path,v[i].path); State r=merge2(cur,v[i],c,cd,nullptr,live); r.path=np; cur=std::move(r);} cur.path=basePath; cur.pathdep=baseDep; outS=std::move(cur); }
static std::string retKey(Fn&F,State&S,int J){ // key of the value about to be returned
  Instruction*t=F.bb[J].B->getTerminator(); auto*ri=cast<ReturnInst>(t); if(!ri->getReturnValue()) return ""; DI&d=F.in[F.bb[J].last-1]; V v; if(d.o.empty()) return ""; if(d.o[0]<0) v=F.consts[-d.o[0]-1]; else v=S.regs[d.o[0]]; if(!v||v->k!=INT) return "?"; v=rd(S,v); if(single(v)) return std::to_string(v->lo); return "?"; }
struct Arm { States s; u32 form; V cv; };
static void joinArms(Fn&F,std::vector<Arm>&arms,int J,u32 basePath,u32 baseDep,u32 condDep,States&res){
  // res: merged states at J with path restored relative to basePath
  const std::vector<u64>*live=J>=0?&F.bb[J].live:nullptr; bool split=J>=0&&F.bb[J].isRet&&F.splitRet;
  size_t tot=0; for(auto&a:arms) tot+=a.s.size(); if(tot==0) return;
  if(tot==1){ for(auto&a:arms) for(auto&s:a.s){ s.path=basePath; s.pathdep=baseDep; res.push_back(std::move(s)); } return; }
  std::map<std::string,std::vector<std::pair<int,State*>>> g; for(size_t i=0;i<arms.size();i++) for(auto&s:arms[i].s) g[split?retKey(F,s,J):std::string()].push_back({(int)i,&s});
  if(g.size()>SPLITCAP){ std::map<std::string,std::vector<std::pair<int,State*>>> h; for(auto&x:g) for(auto&y:x.second) h[""].push_back(y); g.swap(h); }
  bool one=g.size()==1;
  for(auto&x:g){ auto&v=x.second; State R; std::vector<State> perArm; std::vector<int> armId; u32 pd=baseDep;
    // first merge inside each arm, then across arms by the branch condition
    for(size_t i=0;i<arms.size();i++){ States w; for(auto&y:v) if(y.first==(int)i) w.push_back(std::move(*y.second)); if(w.empty()) continue; if(w.size()==1){ perArm.push_back(std::move(w[0])); } else { u32 dd=0; for(auto&s:w) dd=depUnion(dd,s.pathdep); u32 pp=w[0].path; for(size_t k=1;k<w.size();k++) pp=NT.get(N_PATH+5000,pp,w[k].path); State m; mergeGroup(w,pp,dd,live,m); perArm.push_back(std::move(m)); } armId.push_back(i); }
    for(auto&s:perArm) pd=depUnion(pd,s.pathdep);
    R=std::move(perArm.back()); u32 rp=R.path; for(int i=(int)perArm.size()-2;i>=0;i--){ Arm&a=arms[armId[i]]; u32 cd=condDep; u32 np=NT.get(N_PATH+5000,perArm[i].path,rp); State m=merge2(perArm[i],R,a.form,cd,a.cv?&a.cv:nullptr,live); R=std::move(m); rp=np; }
    if(one){ R.path=basePath; R.pathdep=baseDep; } else { R.path=NT.get(N_PATH+5001,basePath,rp); R.pathdep=depUnion(pd,condDep); }
    res.push_back(std::move(R)); } }
static States handleCall(Fn&F,DI&d,State&S,bool&simple,int depth);
static V gepOp(Fn&F,DI&d,State&S){
  V p=opv(F,S,d.o[0]); if(p->k!=PTR) p=getP(F,S,d.o[0],"address computation"); std::vector<V> ix; u32 dep=p->dep; bool allc=true; i64 csum=0;
  for(auto&g:d.gs){ if(g.op>=0){ V i=opv(F,S,d.o[g.op]); if(i->k!=INT){ i=toInt(i,64); i=sane(i,T_INT,64,"array index"); } ix.push_back(i); dep=depUnion(dep,i->dep); if(!single(i)) allc=false; else csum+=i->lo*g.scale; } else { ix.push_back(V()); csum+=g.coff; } }
  std::vector<Tgt> out; for(auto&t0:p->tg){ Tgt t=t0; bool imm=false; i64 il=0,ih=0; bool afterArr=false; (void)afterArr; t.ilo=t.blo;t.ihi=t.bhi; if(t.lo==t.hi) t.step=0;
    for(size_t q=0;q<d.gs.size();q++){ auto&g=d.gs[q]; if(g.op<0){ t.lo+=g.coff;t.hi+=g.coff; imm=false; if(g.mhi>=0&&t.obj){ t.blo=t.lo; t.bhi=t.hi+g.mhi; } continue; }
      V&i=ix[q]; if(g.cnt>=0&&t.obj){ obl("index"); if(i->lo<0||i->hi>g.cnt){ report("oob","array index "+showVal(i)+" outside [0,"+std::to_string(g.cnt)+"] for '"+OBJ[t.obj].name+"'"); } imm=true; il=t.lo; ih=t.hi+g.cnt*g.scale; }
      i128 l=(i128)i->lo*g.scale,h=(i128)i->hi*g.scale; i128 L=(i128)t.lo+l,H=(i128)t.hi+h; if(L<-(i128)1<<60||H>(i128)1<<60){ report("oob","address computation out of range with index "+showVal(i)); L=t.lo;H=t.hi; } 
      if(i->lo!=i->hi){ i64 st=g.scale; // known-zero low bits widen the stride
        if(i->bits){ auto&f=i->bits->f; u32 z=0; while(z<f.size()&&f[z]==0) z++; st<<=std::min<u32>(z,8);} i64 a=t.step,b=st; a=std::llabs(a);b=std::llabs(b); while(b){i64 r=a%b;a=b;b=r;} t.step=a; }
      t.lo=(i64)L;t.hi=(i64)H; }
    if(imm){ t.ilo=il;t.ihi=ih; } if(t.step==0) t.step=1; 
    if(t.obj&&!OBJ[t.obj].fn){ obl("index"); i64 bl=t.blo,bh=t.bhi; if(t.lo<bl||t.hi>bh){ // one-before / far pointers are reported at the access; computing them inside the object slack is tolerated
        if(t.lo<-4096||t.hi>(i64)OBJ[t.obj].size+4096) report("oob","address computed at offset "+std::to_string(t.lo)+".."+std::to_string(t.hi)+" of '"+OBJ[t.obj].name+"'"); } }
    else if(!t.obj&&(t.lo||t.hi)){ report("null","pointer arithmetic on a null pointer"); }
    out.push_back(t); }
  V r=mkPtr(out,dep); if(NT.n[r->vid].op!=N_PTR){ u32 vid=p->vid; for(size_t q=0;q<ix.size();q++) if(ix[q]&&!single(ix[q])) vid=NT.get(N_BIN+981,vid,ix[q]->vid,(u32)d.gs[q].scale); if(csum) vid=NT.get(N_BIN+980,vid,(u32)csum,(u32)((u64)csum>>32)); r->vid=vid; } (void)allc; return r; }

static void exec(Fn&F,int bi,int ip,State S,int until,States&out,int depth){
  for(;;){ BBI&b=F.bb[bi]; if(ip<0) ip=b.first+b.nphi; bool moved=false;
    for(;ip<b.last;ip++){ DI&d=F.in[ip]; curI=d.I; if(++icount>budget) fail("instruction budget exhausted");
      switch(d.op){
      case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::And: case Instruction::Or: case Instruction::Xor: {
        if(d.tk==T_VEC){ V x=opv(F,S,d.o[0]),y=opv(F,S,d.o[1]); 
          if(x->k==VEC&&y->k==VEC&&(d.op==Instruction::And||d.op==Instruction::Or||d.op==Instruction::Xor)){ // bitwise: any common lane layout
            V xl=x,yl=y; if(xl->el.size()!=yl->el.size()||xl->el[0]->w!=yl->el[0]->w){ u32 nn=std::max(xl->el.size(),yl->el.size()); xl=relayout(x,nn,d.w/nn,T_INT); yl=relayout(y,nn,d.w/nn,T_INT);} std::vector<V> e; for(size_t i=0;i<xl->el.size();i++){ V p=sane(xl->el[i],T_INT,xl->el[i]->w,"vector operation"),q=sane(yl->el[i],T_INT,yl->el[i]->w,"vector operation"); e.push_back(intOp(F,d,p->k==INT?p:toInt(p,p->w),q->k==INT?q:toInt(q,q->w))); } S.regs[d.dst]=mkVec(e); break; }
          V xl=relayout(x,d.n,d.ew,T_INT),yl=relayout(y,d.n,d.ew,T_INT); std::vector<V> e; for(u32 i=0;i<d.n;i++) e.push_back(intOp(F,d,sane(toInt(xl->el[i],d.ew),T_INT,d.ew,"vector operation"),sane(toInt(yl->el[i],d.ew),T_INT,d.ew,"vector operation"))); S.regs[d.dst]=mkVec(e); break; }
        V a=getI(F,S,d.o[0],d.w,d.I->getOpcodeName()),c=getI(F,S,d.o[1],d.w,d.I->getOpcodeName()); S.regs[d.dst]=intOp(F,d,a,c); break; }
      case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
        if(d.tk==T_VEC){ V x=relayout(opv(F,S,d.o[0]),d.n,d.ew,T_FLT),y=relayout(opv(F,S,d.o[1]),d.n,d.ew,T_FLT); std::vector<V> e; for(u32 i=0;i<d.n;i++) e.push_back(fltBin(d.op,sane(x->el[i],T_FLT,d.ew,"vector arithmetic"),sane(y->el[i],T_FLT,d.ew,"vector arithmetic"))); S.regs[d.dst]=mkVec(e); break; }
        V a=getFl(F,S,d.o[0],d.w,d.I->getOpcodeName()),c=getFl(F,S,d.o[1],d.w,d.I->getOpcodeName()); S.regs[d.dst]=fltBin(d.op,a,c); break; }
      case Instruction::FNeg: { if(d.tk==T_VEC){ V x=relayout(opv(F,S,d.o[0]),d.n,d.ew,T_FLT); std::vector<V> e; for(auto&q:x->el) e.push_back(negF(sane(q,T_FLT,d.ew,"fneg"))); S.regs[d.dst]=mkVec(e);} else S.regs[d.dst]=negF(getFl(F,S,d.o[0],d.w,"fneg")); break; }
      case Instruction::ICmp: case Instruction::FCmp: { u32 pred=cast<CmpInst>(d.I)->getPredicate(); bool fc=d.op==Instruction::FCmp;
        if(d.tk==T_VEC){ V x=relayout(opv(F,S,d.o[0]),d.n,d.ew,fc?T_FLT:T_INT),y=relayout(opv(F,S,d.o[1]),d.n,d.ew,fc?T_FLT:T_INT); std::vector<V> e; for(u32 i=0;i<d.n;i++){ V p=sane(x->el[i],fc?T_FLT:T_INT,d.ew,"comparison"),q=sane(y->el[i],fc?T_FLT:T_INT,d.ew,"comparison"); e.push_back(fc?fcmpV(pred,p,q):icmpV(pred,p,q)); } Val*v=new Val; v->k=VEC; v->el=e; v->w=d.n; v->vid=NT.fresh(); u32 dd=0; for(auto&q:e) dd=depUnion(dd,q->dep); v->dep=dd; S.regs[d.dst]=V(v); break; }
        if(fc){ V a=getFl(F,S,d.o[0],d.w,"comparison"),c=getFl(F,S,d.o[1],d.w,"comparison"); S.regs[d.dst]=fcmpV(pred,a,c); }
        else if(d.tk==T_PTR){ S.regs[d.dst]=ptrCmp(pred,getP(F,S,d.o[0],"comparison"),getP(F,S,d.o[1],"comparison")); }
        else { V a=getI(F,S,d.o[0],d.w,"comparison"),c=getI(F,S,d.o[1],d.w,"comparison"); S.regs[d.dst]=icmpV(pred,a,c);} break; }
      case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: case Instruction::FPExt: case Instruction::FPTrunc: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::PtrToInt: case Instruction::IntToPtr: {
        Type*st=d.I->getOperand(0)->getType(); V a=opv(F,S,d.o[0]);
        if(d.tk==T_VEC){ auto*vt=cast<FixedVectorType>(st); u32 n=vt->getNumElements(),ew=wOf(vt->getElementType()); u8 ek=tkOf(vt->getElementType()); V x=a; if(ew>=8) x=relayout(a,n,ew,ek); std::vector<V> e; for(u32 i=0;i<n;i++) e.push_back(castOp(d,d.op,sane(x->el[i],ek,ew,"conversion"),d.etk,d.ew)); S.regs[d.dst]=mkVec(e); break; }
        u8 sk=tkOf(st); if(sk==T_INT) a=getI(F,S,d.o[0],wOf(st),"conversion"); else if(sk==T_FLT) a=getFl(F,S,d.o[0],wOf(st),"conversion"); else a=getP(F,S,d.o[0],"conversion"); S.regs[d.dst]=castOp(d,d.op,a,d.tk,d.w); break; }
      case Instruction::BitCast: { V a=opv(F,S,d.o[0]); if(a->k==UNDEF){ S.regs[d.dst]=mkUndef(d.w); break; } if(d.tk==T_VEC){ if(a->k==VEC) { if(a->el[0]->w==d.ew) S.regs[d.dst]=relayout(a,d.n,d.ew,d.etk); else S.regs[d.dst]=a; } else S.regs[d.dst]=relayout(a,d.n,d.ew,d.etk);} else S.regs[d.dst]=asType(a->k==VEC&&d.tk!=T_PTR?toInt(a,d.w):a,d.tk,d.w,0,0,0); break; }
      case Instruction::Freeze: { S.regs[d.dst]=opv(F,S,d.o[0]); break; }
      case Instruction::Select: { V c=getI(F,S,d.o[0],1,"select"); S.regs[d.dst]=selectV(S,c,opv(F,S,d.o[1]),opv(F,S,d.o[2])); break; }
      case Instruction::GetElementPtr: S.regs[d.dst]=gepOp(F,d,S); break;
      case Instruction::Alloca: { OI o; V cnt=opv(F,S,d.o[0]); i64 n=cnt->lo; if(!isa<ConstantInt>(d.I->getOperand(0))) obl("stack"); if(!single(cnt)||(d.sz&&(u64)std::max<i64>(n,0)>65536/d.sz)) report("stack","stack object of unknown or large size: "+showVal(cnt)+" elements"); if(!single(cnt)){ fail("variable-length array of unknown size"); } std::string nm=d.I->getName().str(); o.name=F.name+"::"+(nm.empty()?"local":nm); if(o.name.size()>5&&o.name.substr(o.name.size()-5)==".addr") o.name.resize(o.name.size()-5); o.size=d.sz*(u64)std::max<i64>(n,0); o.def=D_UNINIT;o.stack=true; o.align=d.align; u32 id=OBJ.size(); OBJ.push_back(o); S.mem.push_back({id,newObj(o.size)}); S.fobjs.push_back(id); S.regs[d.dst]=ptrTo(id,0); break; }
      case Instruction::Load: { V p=getP(F,S,d.o[0],"load"); if(d.tk==T_VEC&&d.align>=16){ obl("align"); for(auto&t:p->tg){ if(!t.obj) continue; OI&o=OBJ[t.obj]; u64 al=o.heap?64:o.align; if(al<d.align||t.step%(i64)d.align*(t.lo!=t.hi)||(t.lo+o.residue)%d.align) report("align","vector load needs "+std::to_string(d.align)+"-byte alignment"); } } S.regs[d.dst]=loadV(S,p,d.tk,d.w,d.n,d.ew,d.etk,"load"); break; }
      case Instruction::Store: { V p=getP(F,S,d.o[1],"store"); if(d.tk==T_VEC&&d.align>=16){ obl("align"); for(auto&t:p->tg){ if(!t.obj) continue; OI&o=OBJ[t.obj]; u64 al=o.heap?64:o.align; if(al<d.align||t.step%(i64)d.align*(t.lo!=t.hi)||(t.lo+o.residue)%d.align) report("align","vector store needs "+std::to_string(d.align)+"-byte alignment"); } } V v=opv(F,S,d.o[0]); if(d.w==1&&v->k==INT){ bool z; v=castOp(d,Instruction::ZExt,v,T_INT,8); (void)z; } storeV(S,p,v,(d.w+7)/8,"store"); break; }
      case Instruction::ExtractElement: { V x=relayout(opv(F,S,d.o[0]),cast<FixedVectorType>(d.I->getOperand(0)->getType())->getNumElements(),d.w,d.tk); V i=opv(F,S,d.o[1]); if(!single(i)||(u64)i->lo>=x->el.size()) fail("extractelement index"); S.regs[d.dst]=x->el[i->lo]; break; }
      case Instruction::InsertElement: { V x0=opv(F,S,d.o[0]); V x=relayout(x0,d.n,d.ew,d.etk); V i=opv(F,S,d.o[2]); if(!single(i)) fail("insertelement index"); std::vector<V> e=x->el; e[i->lo]=opv(F,S,d.o[1]); S.regs[d.dst]=mkVec(e); break; }
      case Instruction::ShuffleVector: { auto*sv=cast<ShuffleVectorInst>(d.I); auto*vt=cast<FixedVectorType>(sv->getOperand(0)->getType()); u32 n=vt->getNumElements(); V x=relayout(opv(F,S,d.o[0]),n,d.ew,d.etk),y=relayout(opv(F,S,d.o[1]),n,d.ew,d.etk); std::vector<V> e; for(int m:sv->getShuffleMask()) e.push_back(m<0?mkUndef(d.ew):m<(int)n?x->el[m]:y->el[m-n]); S.regs[d.dst]=mkVec(e); break; }
      case Instruction::ExtractValue: { V x=opv(F,S,d.o[0]); for(unsigned q:cast<ExtractValueInst>(d.I)->indices()){ if(x->k!=VEC||q>=x->el.size()) fail("extractvalue"); x=x->el[q]; } S.regs[d.dst]=x; break; }
      case Instruction::InsertValue: { V x=opv(F,S,d.o[0]); auto*iv=cast<InsertValueInst>(d.I); if(iv->getNumIndices()!=1||x->k!=VEC) fail("insertvalue"); std::vector<V> e=x->el; e[iv->getIndices()[0]]=opv(F,S,d.o[1]); S.regs[d.dst]=mkVec(e); break; }
      case Instruction::Call: { bool simple=true; States rs=handleCall(F,d,S,simple,depth); curI=d.I; if(simple) break; if(rs.empty()) return; if(rs.size()==1){ S=std::move(rs[0]); break; } for(auto&r:rs) exec(F,bi,ip+1,std::move(r),until,out,depth); return; }
      case Instruction::Unreachable: { report("unreachable","control can reach a point declared unreachable"); return; }
      case Instruction::Ret: { if(until>=0) fail("return inside region of "+F.name); if(!d.o.empty()) S.ret=opv(F,S,d.o[0]); else S.ret=V(); out.push_back(std::move(S)); return; }
      case Instruction::Br: { int nx; if(d.o.empty()) nx=d.t; else {
          V c=getI(F,S,d.o[0],1,"branch condition"); int dec=-1; if(single(c)) dec=c->lo!=0; else dec=knownForm(S,cform(c));
          if(dec>=0) nx=dec?d.t:d.f; else if(d.t==d.f) nx=d.t;
          else { u32 orig=S.path,baseDep=S.pathdep; State A=S,B=std::move(S); A.path=NT.get(N_PATH,0,cform(c),1); B.path=NT.get(N_PATH,0,cform(c),0); A.pathdep=B.pathdep=depUnion(baseDep,c->dep);
            bool fa=assume(A,c,true),fb=assume(B,c,false);
            if(!fa&&!fb) return; 
            if(!fa){ S=std::move(B); S.path=orig; S.pathdep=baseDep; nx=d.f; } else if(!fb){ S=std::move(A); S.path=orig; S.pathdep=baseDep; nx=d.t; }
            else { int J=b.ipdom; std::vector<Arm> arms(2); arms[0].form=cform(c); arms[0].cv=c; Fn*FP=&F;
              if(d.t==J){ enter(*FP,A,bi,J); arms[0].s.push_back(std::move(A)); } else { enter(*FP,A,bi,d.t); exec(F,d.t,-1,std::move(A),J,arms[0].s,depth);} 
              if(d.f==J){ enter(*FP,B,bi,J); arms[1].s.push_back(std::move(B)); } else { enter(*FP,B,bi,d.f); exec(F,d.f,-1,std::move(B),J,arms[1].s,depth);} 
              curI=d.I; if(J<0){ // both arms ran to function exit (or never return)
                for(auto&a:arms) for(auto&s:a.s){ s.path=NT.get(N_PATH+5001,orig,s.path); out.push_back(std::move(s)); } return; }
              States res; joinArms(F,arms,J,orig,baseDep,c->dep,res); if(res.empty()) return; if(J==until){ for(auto&s:res) out.push_back(std::move(s)); return; }
              for(size_t q=0;q+1<res.size();q++) exec(F,J,-1,std::move(res[q]),until,out,depth); S=std::move(res.back()); bi=J; ip=-1; moved=true; break; } } }
        if(nx==until){ enter(F,S,bi,nx); out.push_back(std::move(S)); return; } enter(F,S,bi,nx); bi=nx; ip=-1; moved=true; break; }
      case Instruction::Switch: { V c=getI(F,S,d.o[0],d.w?d.w:wOf(d.I->getOperand(0)->getType()),"switch"); int nx=-1; if(single(c)){ nx=d.t; for(auto&k:d.cases) if(k.first==c->lo){nx=k.second;break;} }
        else { int J=b.ipdom; std::vector<Arm> arms; State rest=std::move(S); u32 orig=rest.path,baseDep=rest.pathdep; bool live=true; rest.path=0;
          for(auto&k:d.cases){ if(!live) break; V cc=rd(rest,c); V e=icmpV(CmpInst::ICMP_EQ,cc,mkInt(c->w,k.first)); if(single(e)&&!e->lo) continue; State A=rest; bool ok=assume(A,e,true); State B=rest; bool okb=!(single(e)&&e->lo)&&assume(B,e,false);
            if(ok){ Arm a; a.form=single(e)?1:cform(e); a.cv=single(e)?V():e; A.path=NT.get(N_PATH,rest.path,cform(e),1); A.pathdep=depUnion(baseDep,c->dep); if(k.second==J){ enter(F,A,bi,J); a.s.push_back(std::move(A)); } else { enter(F,A,bi,k.second); exec(F,k.second,-1,std::move(A),J,a.s,depth);} arms.push_back(std::move(a)); }
            live=okb; if(okb){ B.path=NT.get(N_PATH,rest.path,cform(e),0); rest=std::move(B);} }
          if(live){ Arm a; a.form=0; rest.pathdep=depUnion(baseDep,c->dep); if(d.t==J){ enter(F,rest,bi,J); a.s.push_back(std::move(rest)); } else { enter(F,rest,bi,d.t); exec(F,d.t,-1,std::move(rest),J,a.s,depth);} arms.push_back(std::move(a)); }
          curI=d.I; if(J<0){ for(auto&a:arms) for(auto&s:a.s){ s.path=NT.get(N_PATH+5001,orig,s.path); out.push_back(std::move(s)); } return; }
          States res; joinArms(F,arms,J,orig,baseDep,c->dep,res); if(res.empty()) return; if(J==until){ for(auto&s:res) out.push_back(std::move(s)); return; }
          for(size_t q=0;q+1<res.size();q++) exec(F,J,-1,std::move(res[q]),until,out,depth); S=std::move(res.back()); bi=J; ip=-1; moved=true; break; }
        if(nx==until){ enter(F,S,bi,nx); out.push_back(std::move(S)); return; } enter(F,S,bi,nx); bi=nx; ip=-1; moved=true; break; }
      default: fail(std::string("unsupported instruction ")+d.I->getOpcodeName()); }
      if(moved) break; }
    if(!moved) fail("fell off block"); }
}
#include "models.inc"
