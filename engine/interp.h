#include <memory>
#pragma once
#include "core.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/Operator.h"
#include "llvm/Analysis/PostDominators.h"
#include "llvm/IR/Dominators.h"
using namespace llvm;

struct Ent { V v; u8 bi=0; };
struct Chunk { int rc=0; Ent e[64]; static void dispose(Chunk*c){ delete c; } };
struct Obj { int rc=0; u32 n=0; std::vector<Ref<Chunk>> c; static void dispose(Obj*o){ delete o; } };
enum Def : u8 { D_ZERO, D_UNINIT, D_TOP };
struct OI { std::string name; u64 size=0; Def def=D_ZERO; bool cst=false,tls=false,stack=false,heap=false; Function*fn=nullptr; u64 align=1; u32 residue=0; };
extern std::vector<OI> OBJ;

struct Frozen { u32 obj; i64 lo,hi; };
struct State {
  std::vector<std::pair<u32,Ref<Obj>>> mem; std::vector<V> regs;
  std::vector<std::pair<u32,V>> facts; u64 bloom=0;
  std::vector<std::pair<u32,bool>> known;     // GF(2) forms (even) with known value
  std::vector<Frozen> frozen;
  u32 path=0,pathdep=0; V ret; std::vector<u32> fobjs;
  Ref<Obj>*find(u32 id);
};
struct DI { Instruction*I=nullptr; u32 op=0; int dst=-1; std::vector<int> o; u8 tk=0; u32 w=0,n=0,ew=0; u8 etk=0;
  // gep
  struct GS { int op; i64 scale; i64 cnt; i64 coff; i64 mlo,mhi; }; // op<0 => constant only / member narrowing
  std::vector<GS> gs; i64 gconst=0; u64 sz=0; u32 align=1; int callee=-1; u32 model=0; int t=-1,f=-1; std::vector<std::pair<i64,int>> cases; };
enum TK : u8 { T_VOID, T_INT, T_FLT, T_PTR, T_VEC, T_STRUCT };
struct BBI { BasicBlock*B; int first,last; int nphi; int ipdom; bool isRet; std::vector<u64> live; };
struct Fn { Function*F=nullptr; std::string name; std::vector<DI> in; std::vector<BBI> bb; std::vector<V> consts; std::vector<std::string> rn; u32 nregs=0; bool splitRet=false; int retReg=-1; bool ready=false; };

struct Finding { std::string cat,file,func,msg; int line; std::string stack; };
