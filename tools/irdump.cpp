// Dumps an LLVM-18 module (textual or bitcode) as JSON for the symbolic executor (symx.py).
// Every GEP is lowered to base + constant + sum(index*scale); constant initialisers are lowered to a list
// of (offset, scalar) cells, so that the executor needs no data layout of its own.
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/ADT/SmallString.h>
#include <set>
#include <map>
#include <deque>
using namespace llvm;
static const DataLayout *DL;
static std::string esc(StringRef s){ std::string r="\""; for(unsigned char c: s){ if(c=='"'||c=='\\'){r+='\\';r+=(char)c;} else if(c<32||c>126){char b[8];snprintf(b,8,"\\u%04x",c);r+=b;} else r+=(char)c;} return r+"\""; }
static std::set<const Function*> todoF; static std::deque<const Function*> queueF; static std::set<const GlobalVariable*> todoG; static std::deque<const GlobalVariable*> queueG;
static void needF(const Function*f){ if(todoF.insert(f).second) queueF.push_back(f);} 
static void needG(const GlobalVariable*g){ if(todoG.insert(g).second) queueG.push_back(g);} 
static std::string ty(Type*t){
  if(t->isVoidTy()) return "[\"v\"]";
  if(auto*i=dyn_cast<IntegerType>(t)) return "[\"i\","+std::to_string(i->getBitWidth())+"]";
  if(t->isDoubleTy()) return "[\"d\"]"; if(t->isFloatTy()) return "[\"f\"]"; if(t->isX86_FP80Ty()) return "[\"x\"]";
  if(t->isPointerTy()) return "[\"p\"]";
  if(auto*s=dyn_cast<StructType>(t)){ if(s->isOpaque()) return "[\"o\"]"; auto*L=DL->getStructLayout(s); std::string r="[\"s\","+std::to_string(L->getSizeInBytes())+",["; for(unsigned i=0;i<s->getNumElements();++i){ if(i) r+=","; r+="["+std::to_string((uint64_t)L->getElementOffset(i))+","+ty(s->getElementType(i))+"]";} return r+"]]"; }
  if(auto*a=dyn_cast<ArrayType>(t)) return "[\"a\","+std::to_string(DL->getTypeAllocSize(t).getFixedValue())+","+std::to_string(a->getNumElements())+","+std::to_string(DL->getTypeAllocSize(a->getElementType()).getFixedValue())+","+ty(a->getElementType())+"]";
  if(auto*v=dyn_cast<FixedVectorType>(t)) return "[\"V\","+std::to_string(v->getNumElements())+","+std::to_string(DL->getTypeAllocSize(v->getElementType()).getFixedValue())+","+ty(v->getElementType())+"]";
  return "[\"?\"]";
}
static std::map<const Value*,int> ids; static std::set<std::string> srcf;
static std::string op(const Value*v);
static std::string gepStr(const GEPOperator*g){
  unsigned bw=DL->getIndexSizeInBits(0); MapVector<Value*,APInt> var; APInt c(bw,0);
  if(!g->collectOffset(*DL,bw,var,c)) return "[\"unsupported\",\"gep\"]";
  std::string r="[\"gep\","+op(g->getPointerOperand())+","+std::to_string(c.getSExtValue())+",["; bool f=true;
  for(auto&kv:var){ if(!f) r+=","; f=false; r+="["+op(kv.first)+","+std::to_string(kv.first->getType()->getIntegerBitWidth())+","+std::to_string(kv.second.getSExtValue())+"]"; }
  return r+"]]";
}
static std::string op(const Value*v){
  auto it=ids.find(v); if(it!=ids.end()) return "["+std::string("\"l\",")+std::to_string(it->second)+"]";
  if(auto*c=dyn_cast<ConstantInt>(v)) { SmallString<40> s; c->getValue().toStringUnsigned(s); return "[\"c\","+std::string(s.str())+"]"; }
  if(auto*c=dyn_cast<ConstantFP>(v)) { APInt b=c->getValueAPF().bitcastToAPInt(); SmallString<40> s; b.toStringUnsigned(s); return "[\"fp\","+std::to_string(b.getBitWidth())+","+std::string(s.str())+"]"; }
  if(isa<ConstantPointerNull>(v)) return "[\"c\",0]";
  if(isa<UndefValue>(v)) return "[\"u\","+ty(v->getType())+"]"; // undef and poison
  if(auto*f=dyn_cast<Function>(v)) { needF(f); return "[\"g\","+esc(f->getName())+"]"; }
  if(auto*a=dyn_cast<GlobalAlias>(v)) return op(a->getAliasee());
  if(auto*g=dyn_cast<GlobalVariable>(v)) { needG(g); return "[\"g\","+esc(g->getName())+"]"; }
  if(isa<ConstantAggregateZero>(v)) return "[\"z\","+ty(v->getType())+"]";
  if(auto*c=dyn_cast<ConstantDataSequential>(v)) { std::string r="[\"ag\",["; for(unsigned i=0;i<c->getNumElements();++i){ if(i) r+=","; r+=op(c->getElementAsConstant(i)); } return r+"]]"; }
  if(auto*c=dyn_cast<ConstantAggregate>(v)) { std::string r="[\"ag\",["; for(unsigned i=0;i<c->getNumOperands();++i){ if(i) r+=","; r+=op(c->getOperand(i)); } return r+"]]"; }
  if(auto*c=dyn_cast<ConstantExpr>(v)) {
    if(auto*g=dyn_cast<GEPOperator>(c)) return gepStr(g);
    std::string r="[\"ce\","+esc(c->getOpcodeName())+","+ty(c->getType())+",["; 
    if(c->getOpcode()==Instruction::ICmp||c->getOpcode()==Instruction::FCmp) r+="\""+std::string(CmpInst::getPredicateName((CmpInst::Predicate)c->getPredicate()))+"\",";
    for(unsigned i=0;i<c->getNumOperands();++i){ if(i) r+=","; r+="["+op(c->getOperand(i))+","+ty(c->getOperand(i)->getType())+"]";} return r+"]]"; }
  if(isa<MetadataAsValue>(v)) return "[\"md\"]";
  return "[\"unsupported\",\"operand\"]";
}
static void flat(const Constant*c,uint64_t off,std::string&r){
  Type*t=c->getType();
  if(isa<ConstantAggregateZero>(c)||isa<UndefValue>(c)) return; // zero background (undef -> zero for initialisers)
  if(auto*s=dyn_cast<StructType>(t)){ auto*L=DL->getStructLayout(s); for(unsigned i=0;i<s->getNumElements();++i) flat(c->getAggregateElement(i),off+L->getElementOffset(i),r); return; }
  if(auto*a=dyn_cast<ArrayType>(t)){ uint64_t es=DL->getTypeAllocSize(a->getElementType()); for(unsigned i=0;i<a->getNumElements();++i) flat(c->getAggregateElement(i),off+i*es,r); return; }
  if(auto*a=dyn_cast<FixedVectorType>(t)){ uint64_t es=DL->getTypeAllocSize(a->getElementType()); for(unsigned i=0;i<a->getNumElements();++i) flat(c->getAggregateElement(i),off+i*es,r); return; }
  if(!r.empty()) r+=","; r+="["+std::to_string(off)+","+std::to_string(DL->getTypeStoreSize(t).getFixedValue())+","+op(c)+"]";
}
static std::string loc(const Instruction&I){ if(auto&d=I.getDebugLoc()) { return esc((d->getFilename()+":"+Twine(d.getLine())).str()); } return "\"\""; }
int main(int argc,char**argv){
  LLVMContext C; SMDiagnostic e; auto M=parseIRFile(argv[1],e,C); if(!M){ e.print(argv[0],errs()); return 1; } DL=&M->getDataLayout();
  for(auto&f:*M){ bool want=false; for(int i=2;i<argc;++i) if(f.getName().starts_with(argv[i])) want=true; if(want&&!f.isDeclaration()) needF(&f); }
  if(auto*g=M->getGlobalVariable("llvm.global_ctors")) needG(g);
  raw_ostream&o=outs(); o<<"{\"functions\":{"; bool first=true; std::vector<std::string> decls; 
  std::string gout;
  while(!queueF.empty()||!queueG.empty()){
    while(!queueG.empty()){ auto*g=queueG.front(); queueG.pop_front(); std::string r; if(g->hasInitializer()) flat(g->getInitializer(),0,r); if(!gout.empty()) gout+=","; gout+=esc(g->getName())+":{\"size\":"+std::to_string(DL->getTypeAllocSize(g->getValueType()).getFixedValue())+",\"const\":"+(g->isConstant()?"true":"false")+",\"ext\":"+(g->hasInitializer()?"false":"true")+",\"init\":["+r+"]}"; }
    if(queueF.empty()) continue;
    auto*f=queueF.front(); queueF.pop_front(); if(f->isDeclaration()){ decls.push_back(f->getName().str()); continue; }
    ids.clear(); int n=0; std::map<const BasicBlock*,int> bid; int nb=0;
    if(!first) o<<","; first=false; o<<"\n"<<esc(f->getName())<<":{\"args\":["; bool fa=true; for(auto&a:f->args()){ ids[&a]=n++; if(!fa) o<<","; fa=false; o<<"["<<ty(a.getType())<<","<<(a.hasByValAttr()?DL->getTypeAllocSize(a.getParamByValType()).getFixedValue():0)<<"]"; }
    for(auto&b:*f){ bid[&b]=nb++; for(auto&i:b) if(!i.getType()->isVoidTy()) ids[&i]=n++; }
    std::string dsp; if(auto*sp=f->getSubprogram()) { dsp=(sp->getFilename()+":"+Twine(sp->getLine())).str(); }
    o<<"],\"n\":"<<n<<",\"src\":"<<esc(dsp)<<",\"ret\":"<<ty(f->getReturnType())<<",\"blocks\":[";
    for(auto&b:*f){ if(bid[&b]) o<<","; o<<"["; bool fi=true;
      for(auto&I:b){ if(isa<DbgInfoIntrinsic>(I)) continue; if(auto*ii=dyn_cast<IntrinsicInst>(&I)){ auto id=ii->getIntrinsicID(); if(id==Intrinsic::lifetime_start||id==Intrinsic::lifetime_end||id==Intrinsic::assume||id==Intrinsic::experimental_noalias_scope_decl||id==Intrinsic::invariant_start||id==Intrinsic::invariant_end) continue; }
        for(const DILocation*l=I.getDebugLoc().get();l;l=l->getInlinedAt()) if(auto*sp=l->getScope()->getSubprogram()) if(sp->getFilename().contains("/src/")) srcf.insert((sp->getFilename()+"|"+sp->getName()).str());
        if(!fi) o<<","; fi=false; o<<"["; int d=I.getType()->isVoidTy()?-1:ids[&I];
        auto hdr=[&](StringRef k){ o<<esc(k)<<","<<d<<","<<ty(I.getType())<<","; };
        if(auto*g=dyn_cast<GetElementPtrInst>(&I)){ hdr("gep"); if(g->getType()->isVectorTy()) o<<"[\"unsupported\"]"; else o<<gepStr(cast<GEPOperator>(g)); }
        else if(auto*c=dyn_cast<CmpInst>(&I)){ hdr(isa<ICmpInst>(c)?"icmp":"fcmp"); o<<"\""<<CmpInst::getPredicateName(c->getPredicate())<<"\","<<op(c->getOperand(0))<<","<<op(c->getOperand(1))<<","<<ty(c->getOperand(0)->getType()); }
        else if(auto*p=dyn_cast<PHINode>(&I)){ hdr("phi"); o<<"["; for(unsigned i=0;i<p->getNumIncomingValues();++i){ if(i) o<<","; o<<"["<<bid[p->getIncomingBlock(i)]<<","<<op(p->getIncomingValue(i))<<"]"; } o<<"]"; }
        else if(auto*c=dyn_cast<CallBase>(&I)){ hdr(isa<InvokeInst>(c)?"invoke":"call"); std::string cn; if(auto*fn=dyn_cast<Function>(c->getCalledOperand()->stripPointerCastsAndAliases())) { needF(fn); cn=fn->getName().str(); }
           if(c->isInlineAsm()) o<<"[\"unsupported\",\"asm\"]"; else if(!cn.empty()) o<<"[\"g\","<<esc(cn)<<"]"; else o<<op(c->getCalledOperand()); o<<",["; for(unsigned i=0;i<c->arg_size();++i){ if(i) o<<","; o<<"["<<op(c->getArgOperand(i))<<","<<ty(c->getArgOperand(i)->getType())<<"]"; } o<<"]"; if(auto*iv=dyn_cast<InvokeInst>(c)) o<<","<<bid[iv->getNormalDest()]<<","<<bid[iv->getUnwindDest()]; }
        else if(auto*br=dyn_cast<BranchInst>(&I)){ if(br->isConditional()) o<<"\"cbr\",-1,[\"v\"],"<<op(br->getCondition())<<","<<bid[br->getSuccessor(0)]<<","<<bid[br->getSuccessor(1)]; else o<<"\"br\",-1,[\"v\"],"<<bid[br->getSuccessor(0)]; }
        else if(auto*s=dyn_cast<SwitchInst>(&I)){ hdr("switch"); o<<op(s->getCondition())<<","<<ty(s->getCondition()->getType())<<","<<bid[s->getDefaultDest()]<<",["; bool f2=true; for(auto&cs:s->cases()){ if(!f2) o<<","; f2=false; o<<"["<<op(cs.getCaseValue())<<","<<bid[cs.getCaseSuccessor()]<<"]"; } o<<"]"; }
        else if(auto*a=dyn_cast<AllocaInst>(&I)){ hdr("alloca"); o<<DL->getTypeAllocSize(a->getAllocatedType()).getFixedValue()<<","<<op(a->getArraySize()); }
        else if(auto*l=dyn_cast<LoadInst>(&I)){ hdr("load"); o<<op(l->getPointerOperand())<<","<<DL->getTypeStoreSize(l->getType()).getFixedValue(); }
        else if(auto*s=dyn_cast<StoreInst>(&I)){ o<<"\"store\",-1,"<<ty(s->getValueOperand()->getType())<<","<<op(s->getValueOperand())<<","<<op(s->getPointerOperand())<<","<<DL->getTypeStoreSize(s->getValueOperand()->getType()).getFixedValue(); }
        else if(auto*x=dyn_cast<ExtractValueInst>(&I)){ hdr("extractvalue"); o<<op(x->getAggregateOperand())<<",["; for(unsigned i=0;i<x->getNumIndices();++i){ if(i) o<<","; o<<x->getIndices()[i]; } o<<"]"; }
        else if(auto*x=dyn_cast<InsertValueInst>(&I)){ hdr("insertvalue"); o<<op(x->getAggregateOperand())<<","<<op(x->getInsertedValueOperand())<<",["; for(unsigned i=0;i<x->getNumIndices();++i){ if(i) o<<","; o<<x->getIndices()[i]; } o<<"]"; }
        else if(auto*lp=dyn_cast<LandingPadInst>(&I)){ hdr("landingpad"); o<<(lp->isCleanup()?"true":"false")<<",["; for(unsigned i=0;i<lp->getNumClauses();++i){ if(i) o<<","; o<<"["<<(lp->isCatch(i)?"\"catch\"":"\"filter\"")<<","<<op(lp->getClause(i))<<"]"; } o<<"]"; }
        else if(auto*sv=dyn_cast<ShuffleVectorInst>(&I)){ hdr("shufflevector"); o<<op(sv->getOperand(0))<<","<<op(sv->getOperand(1))<<",["; for(unsigned i=0;i<sv->getShuffleMask().size();++i){ if(i) o<<","; o<<sv->getShuffleMask()[i]; } o<<"],"<<cast<FixedVectorType>(sv->getOperand(0)->getType())->getNumElements(); }
        else { hdr(I.getOpcodeName()); o<<"["; for(unsigned i=0;i<I.getNumOperands();++i){ if(i) o<<","; if(isa<BasicBlock>(I.getOperand(i))) o<<"[\"bb\"]"; else o<<"["<<op(I.getOperand(i))<<","<<ty(I.getOperand(i)->getType())<<"]"; } o<<"]"; }
        o<<"]"; }
      o<<"]"; }
    o<<"]}";
  }
  o<<"},\n\"globals\":{"<<gout<<"},\n\"decls\":["; for(size_t i=0;i<decls.size();++i){ if(i) o<<","; o<<esc(decls[i]); } o<<"],\n\"srcfuncs\":["; bool f3=true; for(auto&x:srcf){ if(!f3) o<<","; f3=false; o<<esc(x);} o<<"]}\n"; return 0;
}
