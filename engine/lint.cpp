// mbelint MODULE.bc: facts about a lowered library, as JSON: which globals are mutable, shared and written where; what each
// function calls; which functions are visible with which types; the layout of named structures.
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/BinaryFormat/Dwarf.h>
#include <cstdio>
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace llvm;
static std::string esc(const std::string&s){ std::string r="\""; for(char c:s){ if(c=='"'||c=='\\') r+='\\'; if((unsigned char)c<32) continue; r+=c; } return r+"\""; }
struct Loc { std::string f; int l; };
static Loc loc(const Instruction*I){ const DILocation*d=I->getDebugLoc(); if(!d) return {I->getFunction()->getName().str(),0}; std::string f=d->getFilename().str(); if(f.empty()||f[0]!='/') f=d->getDirectory().str()+"/"+f; return {f,(int)d->getLine()}; }
struct Write { const Instruction*I; std::string kind; };
// every instruction that may change memory reached from V by address arithmetic
static void follow(const Value*V,std::set<const Value*>&seen,std::vector<Write>&out){
  if(!seen.insert(V).second) return;
  for(const Use&U:V->uses()){ const User*u=U.getUser();
    if(auto*C=dyn_cast<Constant>(u)){ if(isa<GlobalVariable>(C)) continue; if(isa<GlobalValue>(C)) continue; follow(C,seen,out); continue; }
    auto*I=dyn_cast<Instruction>(u); if(!I) continue;
    if(isa<LoadInst>(I)||isa<ICmpInst>(I)) continue;
    if(auto*S=dyn_cast<StoreInst>(I)){ if(S->getPointerOperand()==V){ if(!S->isAtomic()) out.push_back({I,"store"}); } else out.push_back({I,"its address is stored"}); continue; }
    if(isa<AtomicRMWInst>(I)||isa<AtomicCmpXchgInst>(I)) continue;
    if(isa<GetElementPtrInst>(I)||isa<CastInst>(I)||isa<PHINode>(I)||isa<SelectInst>(I)){ if(I->getType()->isPtrOrPtrVectorTy()) follow(I,seen,out); continue; }
    if(auto*R=dyn_cast<ReturnInst>(I)){ const Function*F=R->getFunction(); for(const Use&fu:F->uses()) if(auto*cb=dyn_cast<CallBase>(fu.getUser())) if(cb->isCallee(&fu)) follow(cb,seen,out); continue; }
    if(auto*cb=dyn_cast<CallBase>(I)){
      if(isa<DbgInfoIntrinsic>(I)) continue;
      if(auto*II=dyn_cast<IntrinsicInst>(I)){ auto id=II->getIntrinsicID(); if(id==Intrinsic::threadlocal_address){ follow(I,seen,out); continue; } if(id==Intrinsic::lifetime_start||id==Intrinsic::lifetime_end) continue; }
      unsigned k=cb->getArgOperandNo(&U); const Function*F=cb->getCalledFunction();
      if(auto*M=dyn_cast<AnyMemIntrinsic>(I)){ if(k==0) out.push_back({I,"memory copy or fill"}); continue; }
      if(F&&!F->isDeclaration()&&k<F->arg_size()){ follow(F->getArg(k),seen,out); continue; }
      static const std::set<std::string> ro={"strlen","strcmp","strncmp","memcmp","printf","fprintf","puts","fputs","fwrite","free"};
      std::string n=F?F->getName().str():""; if(F&&(ro.count(n)||(k<F->arg_size()&&F->getArg(k)->onlyReadsMemory()))) continue;
      if((n=="memcpy"||n=="strcpy"||n=="strncpy"||n=="memmove"||n=="snprintf")&&k!=0) continue;
      out.push_back({I,"passed to "+(n.empty()?std::string("a function pointer"):n)}); continue; }
    out.push_back({I,std::string("used by ")+I->getOpcodeName()}); } }
static std::string tname(const DIType*T){ if(!T) return "void"; if(auto*B=dyn_cast<DIBasicType>(T)) return B->getName().str();
  if(auto*D=dyn_cast<DIDerivedType>(T)){ switch(D->getTag()){ case dwarf::DW_TAG_pointer_type: return tname(D->getBaseType())+"*"; case dwarf::DW_TAG_const_type: return "const "+tname(D->getBaseType()); case dwarf::DW_TAG_volatile_type: return "volatile "+tname(D->getBaseType()); default: return tname(D->getBaseType()); } }
  if(auto*C=dyn_cast<DICompositeType>(T)){ if(C->getTag()==dwarf::DW_TAG_array_type){ std::string r=tname(C->getBaseType()); for(auto*e:C->getElements()) if(auto*S=dyn_cast<DISubrange>(e)) if(auto*n=dyn_cast_if_present<ConstantInt*>(S->getCount())) r+="["+std::to_string(n->getSExtValue())+"]"; return r; } return C->getName().str(); }
  if(isa<DISubroutineType>(T)) return "fn"; return "?"; }
int main(int argc,char**argv){ LLVMContext C; SMDiagnostic err; auto M=parseIRFile(argv[1],err,C); if(!M){ err.print(argv[0],errs()); return 2; }
  printf("{\"globals\":["); bool first=true;
  for(auto&G:M->globals()){ if(G.getName().starts_with("llvm.")) continue; std::set<const Value*> seen; std::vector<Write> w; if(!G.isConstant()) follow(&G,seen,w);
    SmallVector<DIGlobalVariableExpression*,2> di; G.getDebugInfo(di); std::string f; int l=0; if(!di.empty()){ auto*v=di[0]->getVariable(); f=v->getFilename().str(); if(f.empty()||f[0]!='/') f=v->getDirectory().str()+"/"+f; l=v->getLine(); }
    printf("%s\n{\"name\":%s,\"tls\":%d,\"const\":%d,\"local\":%d,\"decl\":%d,\"hidden\":%d,\"file\":%s,\"line\":%d,\"writes\":[",first?"":",",esc(G.getName().str()).c_str(),(int)G.isThreadLocal(),(int)G.isConstant(),(int)G.hasLocalLinkage(),(int)G.isDeclaration(),(int)!G.hasDefaultVisibility(),esc(f).c_str(),l); first=false;
    for(size_t i=0;i<w.size()&&i<20;i++){ Loc L=loc(w[i].I); printf("%s{\"func\":%s,\"file\":%s,\"line\":%d,\"kind\":%s}",i?",":"",esc(w[i].I->getFunction()->getName().str()).c_str(),esc(L.f).c_str(),L.l,esc(w[i].kind).c_str()); } printf("]}"); }
  printf("],\n\"functions\":["); first=true;
  for(auto&F:*M){ if(F.isIntrinsic()) continue; printf("%s\n{\"name\":%s,\"decl\":%d,\"local\":%d,\"hidden\":%d,\"type\":",first?"":",",esc(F.getName().str()).c_str(),(int)F.isDeclaration(),(int)F.hasLocalLinkage(),(int)!F.hasDefaultVisibility()); first=false;
    std::string ty; std::string ff; int fl=0; if(auto*S=F.getSubprogram()){ ff=S->getFilename().str(); if(ff.empty()||ff[0]!='/') ff=S->getDirectory().str()+"/"+ff; fl=S->getLine(); if(auto*T=S->getType()){ auto A=T->getTypeArray(); for(unsigned i=0;i<A.size();i++){ ty+=(i==0?"":i==1?"(":","); ty+=tname(A[i]); } ty+=A.size()>1?")":"()"; } }
    printf("%s,\"file\":%s,\"line\":%d,\"addr\":%d,\"calls\":[",esc(ty).c_str(),esc(ff).c_str(),fl,(int)F.hasAddressTaken()); bool f2=true; std::set<std::string> done; bool ind=false; 
    for(auto&I:instructions(F)){ if(auto*p=dyn_cast<PtrToIntInst>(&I)){ bool diff=true; for(auto*u:p->users()) if(!isa<SubOperator>(u)&&!isa<OverflowingBinaryOperator>(u)) {} (void)diff; Loc L=loc(&I); printf("%s{\"to\":\"<pointer to integer>\",\"file\":%s,\"line\":%d}",f2?"":",",esc(L.f).c_str(),L.l); f2=false; }
      if(auto*cb=dyn_cast<CallBase>(&I)){ if(cb->isInlineAsm()){ Loc L=loc(&I); printf("%s{\"to\":\"<inline assembly>\",\"file\":%s,\"line\":%d}",f2?"":",",esc(L.f).c_str(),L.l); f2=false; continue; } const Function*T=dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts()); std::string n=T?T->getName().str():"<indirect>"; if(T&&T->isIntrinsic()){ if(T->getIntrinsicID()==Intrinsic::trap||T->getIntrinsicID()==Intrinsic::readcyclecounter) n="<"+n+">"; else continue; } if(!done.insert(n).second) continue; Loc L=loc(&I); printf("%s{\"to\":%s,\"file\":%s,\"line\":%d}",f2?"":",",esc(n).c_str(),esc(L.f).c_str(),L.l); f2=false; }
      for(auto&o:I.operands()) if(auto*g=dyn_cast<GlobalVariable>(o)) if(g->isDeclaration()){ std::string n="&"+g->getName().str(); if(done.insert(n).second){ Loc L=loc(&I); printf("%s{\"to\":%s,\"file\":%s,\"line\":%d}",f2?"":",",esc(n).c_str(),esc(L.f).c_str(),L.l); f2=false; } } }
    unsigned long long st=0; for(auto&I:instructions(F)) if(auto*A=dyn_cast<AllocaInst>(&I)){ auto z=A->getAllocationSize(M->getDataLayout()); if(z) st+=z->getFixedValue(); }
    printf("],\"stack\":%llu}",st); (void)ind; }
  printf("],\n\"structs\":["); first=true; DebugInfoFinder D; D.processModule(*M); std::set<std::string> sd;
  for(auto*T:D.types()) if(auto*S=dyn_cast<DICompositeType>(T)) if(S->getTag()==dwarf::DW_TAG_structure_type&&!S->getName().empty()&&!S->isForwardDecl()&&sd.insert(S->getName().str()).second){ printf("%s\n{\"name\":%s,\"size\":%llu,\"members\":[",first?"":",",esc(S->getName().str()).c_str(),(unsigned long long)S->getSizeInBits()/8); first=false; bool f2=true; for(auto*e:S->getElements()) if(auto*m=dyn_cast<DIDerivedType>(e)) if(m->getTag()==dwarf::DW_TAG_member){ printf("%s{\"name\":%s,\"type\":%s,\"offset\":%llu,\"line\":%d}",f2?"":",",esc(m->getName().str()).c_str(),esc(tname(m->getBaseType())).c_str(),(unsigned long long)m->getOffsetInBits()/8,(int)m->getLine()); f2=false; } printf("]}"); }
  printf("]}\n"); return 0; }
