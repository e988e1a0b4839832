// bitv: bit-precise value analysis of LLVM IR.
//
// Every SSA integer is abstracted by one canonical decision diagram (BDD) per bit over the bits of the witness inputs
// bv_sym*(k); control flow merges by guard, memory is a map of slots updated under the current guard.  Nothing is executed
// and no solver is involved: two values are equal iff their canonical forms coincide.  Obligations: calls to the sinks
// bv_eq / bv_true, and unreachability of every trap the front end planted for undefined arithmetic.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/Regex.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/ADT/PostOrderIterator.h"
#include <map>
#include <set>
#include <vector>
#include <string>
#include <unordered_map>
#include <functional>
#include <algorithm>
using namespace llvm;
using std::string; using std::vector; using std::map; using std::pair;
struct Undecided { string why; };
[[noreturn]] static void undecided(const string& w){ throw Undecided{w}; }
// ---------------------------------------------------------------- BDD
struct Bdd {
  struct N { int v, lo, hi; }; vector<N> n{{1<<30,0,0},{1<<30,1,1}};
  struct K { int a,b,c; bool operator==(const K&o)const{return a==o.a&&b==o.b&&c==o.c;} };
  struct H { size_t operator()(const K&k)const{ uint64_t h=k.a*0x9E3779B97F4A7C15ull; h^=(h>>29); h+=k.b; h*=0xBF58476D1CE4E5B9ull; h^=(h>>32); h+=k.c; h*=0x94D049BB133111EBull; return h^(h>>31);} };
  std::unordered_map<K,int,H> uniq, iteC; map<int,string> names;
  int mk(int v,int lo,int hi){ if(lo==hi) return lo; auto r=uniq.emplace(K{v,lo,hi},0); if(!r.second) return r.first->second; n.push_back({v,lo,hi}); if(n.size()>40000000) undecided("decision diagram too large"); return r.first->second=(int)n.size()-1; }
  int ite(int f,int g,int h){ if(f==1) return g; if(f==0) return h; if(g==h) return g; if(g==1&&h==0) return f; if(f==g) g=1; if(f==h) h=0;
    K k{f,g,h}; auto it=iteC.find(k); if(it!=iteC.end()) return it->second; int v=std::min(n[f].v,std::min(n[g].v,n[h].v)); auto lo=[&](int x){return n[x].v==v?n[x].lo:x;}; auto hi=[&](int x){return n[x].v==v?n[x].hi:x;};
    int l=ite(lo(f),lo(g),lo(h)), r=ite(hi(f),hi(g),hi(h)); int m=mk(v,l,r); if(iteC.size()>30000000) iteC.clear(); iteC[k]=m; return m; }
  // generalised cofactor: some g with g AND c == f AND c, never depending on more variables than f
  int restr(int f,int c){ if(f<2||c==1) return f; if(c==0) return 0; if(f==c) return 1; K k{f,-7,c}; auto it=iteC.find(k); if(it!=iteC.end()) return it->second; int r; if(n[c].v<n[f].v) r=restr(f,ite(n[c].lo,1,n[c].hi)); else { int v=n[f].v; if(n[c].v==v){ if(n[c].lo==0) r=restr(n[f].hi,n[c].hi); else if(n[c].hi==0) r=restr(n[f].lo,n[c].lo); else { int l=restr(n[f].lo,n[c].lo),h=restr(n[f].hi,n[c].hi); r=mk(v,l,h); } } else { int l=restr(n[f].lo,c),h=restr(n[f].hi,c); r=mk(v,l,h); } } if(iteC.size()>30000000) iteC.clear(); iteC[k]=r; return r; }
  int AND(int a,int b){ if(a>b) std::swap(a,b); return ite(a,b,0);} int OR(int a,int b){ if(a>b) std::swap(a,b); return ite(a,1,b);} int NOT(int a){return ite(a,0,1);} int XOR(int a,int b){ if(a>b) std::swap(a,b); return ite(a,NOT(b),b);}
  int var(int id,const string&nm){ names[id]=nm; return mk(id,0,1); }
  string witness(int f){ map<string,uint64_t> ones; std::set<string> seen; string s; while(f>1){ auto&x=n[f]; string nm=names[x.v]; size_t p=nm.rfind('.'); string base=nm.substr(0,p); int bit=std::stoi(nm.substr(p+1)); seen.insert(base); if(x.hi){ if(bit<64) ones[base]|=1ull<<bit; f=x.hi; } else f=x.lo; } for(auto&b:seen){ char t[64]; snprintf(t,64,"%s=0x%llx ",b.c_str(),(unsigned long long)ones[b]); s+=t; } return s.empty()?"every input":s; }
} B;
static const int UNINIT_BASE=1<<28;
typedef vector<int> BV;
struct Val { enum K{None,Int,Ptr,Agg} k=None; BV b; string base; const GlobalVariable*g=nullptr; BV off; vector<Val> f; };
static Val iv(const BV&b){ Val v; v.k=Val::Int; v.b=b; return v; }
static BV cst(uint64_t c,unsigned w){ BV r(w,0); for(unsigned i=0;i<w&&i<64;i++) r[i]=(c>>i)&1; return r; }
static BV cst(const APInt&c){ BV r(c.getBitWidth(),0); for(unsigned i=0;i<r.size();i++) r[i]=c[i]; return r; }
static BV add(const BV&a,const BV&b,int cin=0,int*cout=nullptr){ BV r(a.size()); int c=cin; for(size_t i=0;i<a.size();i++){ int x=B.XOR(a[i],b[i]); r[i]=B.XOR(x,c); c=B.OR(B.AND(a[i],b[i]),B.AND(x,c)); } if(cout) *cout=c; return r; }
static BV bnot(const BV&a){ BV r(a); for(auto&x:r) x=B.NOT(x); return r; }
static BV sub(const BV&a,const BV&b){ return add(a,bnot(b),1); }
static BV neg(const BV&a){ return add(bnot(a),cst(0,a.size()),1); }
static BV mux(int c,const BV&a,const BV&b){ if(a.size()!=b.size()) undecided("width mismatch"); BV r(a.size()); for(size_t i=0;i<a.size();i++) r[i]=B.ite(c,a[i],b[i]); return r; }
static int ult(const BV&a,const BV&b){ int r=0; for(size_t i=0;i<a.size();i++) r=B.ite(B.XOR(a[i],b[i]),b[i],r); return r; }
static int slt(BV a,BV b){ a.back()=B.NOT(a.back()); b.back()=B.NOT(b.back()); return ult(a,b); }
static int eq(const BV&a,const BV&b){ int r=1; for(size_t i=0;i<a.size();i++) r=B.AND(r,B.NOT(B.XOR(a[i],b[i]))); return r; }
static bool isC(const BV&a,uint64_t*v=nullptr){ uint64_t r=0; for(size_t i=0;i<a.size();i++){ if(a[i]>1) return false; if(a[i]&&i<64) r|=1ull<<i; } if(v) *v=r; return true; }
static BV ext(const BV&a,unsigned w,bool s){ BV r(a); int f=s?a.back():0; r.resize(w,f); return r; }
static BV tr(const BV&a,unsigned w){ return BV(a.begin(),a.begin()+w); }
static BV shl(const BV&a,unsigned s){ BV r(a.size(),0); for(size_t i=s;i<a.size();i++) r[i]=a[i-s]; return r; }
static BV shr(const BV&a,unsigned s,int fill){ BV r(a.size(),fill); for(size_t i=0;i+s<a.size();i++) r[i]=a[i+s]; return r; }
static BV shv(const BV&a,const BV&s,int mode){ BV r=a; int fill=mode==2?a.back():0; for(unsigned i=0;i<s.size();i++){ if(s[i]==0) continue; BV t=(i<8&&(1u<<i)<a.size())?(mode==0?shl(r,1u<<i):shr(r,1u<<i,fill)):BV(a.size(),fill); r=mux(s[i],t,r); } return r; }
static BV mulv(const BV&a,const BV&b){ const BV*x=&a,*y=&b; int ca=0,cb=0; for(int t:a) ca+=t!=0; for(int t:b) cb+=t!=0; if(isC(a)||(!isC(b)&&ca<cb)) std::swap(x,y); BV r=cst(0,a.size()); for(size_t i=0;i<y->size();i++) if((*y)[i]){ BV s=shl(*x,i); for(auto&t:s) t=B.AND(t,(*y)[i]); r=add(r,s); } return r; }
static unsigned effw(const BV&a){ unsigned n=a.size(); while(n&&a[n-1]==0) n--; return n; }
static void divv(const BV&a,const BV&d,BV&q,BV&r){ size_t w=a.size(); r=cst(0,w+1); BV D=ext(d,w+1,false); q=cst(0,w); for(int i=(int)w-1;i>=0;i--){ r=shl(r,1); r[0]=a[i]; int ge=B.NOT(ult(r,D)); BV s=sub(r,D); r=mux(ge,s,r); q[i]=ge; } r=tr(r,w); }
struct Obl { string name, fn, status, detail; }; static vector<Obl> obls; static unsigned nF=0,nI=0; static uint64_t steps=0; static int fresh=0,FNO=0; static int axioms=1;
static BV symbol(int k,unsigned w,const string&nm){ BV r(w); for(unsigned i=0;i<w;i++) r[i]=B.var((200-(int)i)*4096+k,nm+"."+std::to_string(i)); return r; }
static BV freshSym(unsigned w,const string&nm){ int k=3000+fresh++; if(fresh>1000) undecided("too many abstracted values"); return symbol(k,w,nm+std::to_string(fresh)); }
static int uninitBit(){ static int k=0; int id=UNINIT_BASE+k++; return B.var(id,"UNINIT."+std::to_string(k)); }
static bool dependsUninit(int f,std::set<int>&seen){ if(f<2||!seen.insert(f).second) return false; return B.n[f].v>=UNINIT_BASE||dependsUninit(B.n[f].lo,seen)||dependsUninit(B.n[f].hi,seen); }
static string esc(const string&s){ string r; for(char c:s){ if(c=='"'||c=='\\'){r+='\\';r+=c;} else if((unsigned char)c<32) r+=' '; else r+=c; } return r; }
static const DataLayout*DLp; static Function*TOP; static std::set<string> specs; static map<string,string> tableSpec;
// memory: slot -> value
typedef map<pair<string,int64_t>,BV> Mem; static Mem mem;
static map<string,vector<int>> gfOut; static vector<string> extraJson;
struct Frame; static int depth=0;
static string strOf(const Value*v){ auto*gv=dyn_cast<GlobalVariable>(v->stripPointerCasts()); if(gv&&gv->hasInitializer()) if(auto*cd=dyn_cast<ConstantDataArray>(gv->getInitializer())) if(cd->isString()) return cd->getAsCString().str(); return "?"; }
static Module*MOD;
struct Frame {
  Function&F; map<const Value*,Val> val; Val ret; int id; unsigned nall=0; int retG=0;
  Frame(Function&f):F(f){ static int c=0; id=c++; }
  unsigned width(Type*t){ if(t->isIntegerTy()) return t->getIntegerBitWidth(); undecided("type"); }
  Val mux2(int c,const Val&a,const Val&b){ if(a.k==Val::None) return b; if(b.k==Val::None) return a; if(a.k==Val::Int&&b.k==Val::Int) return iv(mux(c,a.b,b.b)); if(a.k==Val::Ptr&&b.k==Val::Ptr){ if(a.base==b.base){ Val r=a; r.off=mux(c,a.off,b.off); return r; } if(c==1) return a; if(c==0) return b; undecided("merge of pointers to "+a.base+" and "+b.base); } if(a.k==Val::Agg&&b.k==Val::Agg&&a.f.size()==b.f.size()){ Val r=a; for(size_t i=0;i<a.f.size();i++) r.f[i]=mux2(c,a.f[i],b.f[i]); return r; } undecided("merge"); }
  Val get(const Value*v){
    if(auto*c=dyn_cast<ConstantInt>(v)) return iv(cst(c->getValue()));
    if(isa<UndefValue>(v)){ if(v->getType()->isIntegerTy()){ BV r(v->getType()->getIntegerBitWidth()); for(auto&x:r) x=uninitBit(); return iv(r); } Val u; if(auto*st=dyn_cast<StructType>(v->getType())){ u.k=Val::Agg; for(unsigned i=0;i<st->getNumElements();i++) u.f.push_back(get(UndefValue::get(st->getElementType(i)))); } return u; }
    if(isa<ConstantPointerNull>(v)){ Val p; p.k=Val::Ptr; p.base="null"; p.off=cst(0,64); return p; }
    if(auto*g=dyn_cast<GlobalVariable>(v)){ Val p; p.k=Val::Ptr; p.base="@"+g->getName().str(); p.g=g; p.off=cst(0,64); return p; }
    if(auto*ce=dyn_cast<ConstantExpr>(v)){ if(ce->getOpcode()==Instruction::GetElementPtr){ APInt o(64,0); const Value*b=ce->stripAndAccumulateConstantOffsets(*DLp,o,true); Val p=get(b); p.off=add(p.off,cst(o)); return p; } undecided("constant expression"); }
    auto it=val.find(v); if(it==val.end()) undecided("value without abstraction in "+F.getName().str()); return it->second; }
  BV geti(const Value*v){ Val x=get(v); if(x.k!=Val::Int) undecided("integer expected"); return x.b; }
  void set(const Instruction*I,const Val&v0,int cur){ Val v=v0; if(cur>1&&v.k==Val::Int&&v.b.size()>1) for(auto&x:v.b) x=B.restr(x,cur); auto it=val.find(I); if(it==val.end()||cur==1) val[I]=v; else it->second=mux2(cur,v,it->second); }
  void fail(const string&name,const string&d){ obls.push_back({name,TOP->getName().str(),"FAIL",d}); }
  void check(const string&name,int bad){ Obl o{name,TOP->getName().str(),"ok",""}; bad=B.AND(bad,axioms); std::set<int> seen; if(bad){ o.status="FAIL"; o.detail=(dependsUninit(bad,seen)?"uninitialised value; ":"")+string("counterexample ")+B.witness(bad); } obls.push_back(o); }
  BV initWord(const Constant*C,int64_t off,unsigned w,bool&ok){ // reads w bits at byte offset from a constant initialiser
    ok=true; if(C->isNullValue()) return cst(0,w); unsigned bytes=w/8; if(w%8) { ok=false; return BV(); }
    Type*ity=IntegerType::get(C->getContext(),w); Constant*r=nullptr; const Constant*cur=C; 
    while(true){ Type*t=cur->getType(); if(t->isIntegerTy()){ auto*ci=dyn_cast<ConstantInt>(cur); if(ci&&off==0&&ci->getBitWidth()==w) return cst(ci->getValue()); ok=false; return BV(); }
      if(auto*at=dyn_cast<ArrayType>(t)){ uint64_t es=DLp->getTypeAllocSize(at->getElementType()); uint64_t i=off/es; if(i>=at->getNumElements()){ ok=false; return BV(); } off-=i*es; if(auto*cd=dyn_cast<ConstantDataArray>(cur)){ if(off||!at->getElementType()->isIntegerTy(w)){ ok=false; return BV(); } return cst(cd->getElementAsAPInt(i)); } cur=cur->getAggregateElement((unsigned)i); if(!cur){ ok=false; return BV(); } if(cur->isNullValue()) return cst(0,w); continue; }
      if(auto*st=dyn_cast<StructType>(t)){ auto*SL=DLp->getStructLayout(st); unsigned i=SL->getElementContainingOffset(off); off-=SL->getElementOffset(i); cur=cur->getAggregateElement(i); if(!cur){ ok=false; return BV(); } if(cur->isNullValue()) return cst(0,w); continue; }
      ok=false; return BV(); }
    (void)ity;(void)r;(void)bytes; }
  BV specCall(const string&name,const BV&idx,unsigned w,int cur){ Function*S=MOD->getFunction(name); if(!S||S->isDeclaration()) undecided("no specification for table "+name); if(++depth>60) undecided("recursion too deep"); Frame fr(*S); Val a; a=iv(ext(idx,S->arg_begin()->getType()->getIntegerBitWidth(),false)); if(idx.size()>a.b.size()) a=iv(tr(idx,a.b.size())); fr.val[S->arg_begin()]=a; fr.run(cur); depth--; BV r=fr.ret.b; r.resize(w,0); return tr(r,w); }
  BV load(const Val&p,unsigned w,int cur){ if(p.k!=Val::Ptr) undecided("load through a non-pointer"); uint64_t o;
    string tn=p.g?p.g->getName().str():"",spec; if(p.g){ auto ts=tableSpec.find(tn); if(ts!=tableSpec.end()) spec=ts->second; } // tables filled at start-up are described by a specification function
    if(!spec.empty()){ unsigned es=w/8; BV idx=p.off; unsigned l=0; while((1u<<l)<es) l++; idx=shr(idx,l,0); if(tableHook) tableHook(tn,idx,cur); return specCall("spec_"+spec,idx,w,cur); }
    unsigned es=(w+7)/8; if(isC(p.off,&o)) return tr(bytes(p,(int64_t)o,es),w);
    // unknown index into a constant table
    if(p.g&&p.g->hasInitializer()){ uint64_t sz=DLp->getTypeAllocSize(p.g->getValueType()); if(sz/es>4096) undecided("large table with unknown contents: "+tn); BV r=cst(0,w); int hit=0; for(uint64_t i=0;i+es<=sz;i+=es){ BV e=bytes(p,(int64_t)i,es); int c=eq(p.off,cst(i,64)); hit=B.OR(hit,c); for(unsigned b=0;b<w;b++) r[b]=B.OR(r[b],B.AND(c,e[b])); } if(B.AND(B.AND(cur,axioms),B.NOT(hit))) check("index within "+tn,B.AND(cur,B.NOT(hit))); return r; }
    // unknown index into the known cells of a local object
    { BV r=cst(0,w); int hit=0; for(int64_t q:places(p,es)){ int c=eq(p.off,cst((uint64_t)q,64)); if(!c) continue; BV e=bytes(p,q,es); hit=B.OR(hit,c); for(unsigned b=0;b<w;b++) r[b]=B.OR(r[b],B.AND(c,e[b])); } if(!B.AND(B.AND(cur,axioms),B.NOT(hit))) return r; }
    undecided("load with unknown index from "+p.base); }
  // memory is a map of bytes; a byte never written holds its initialiser, or a fresh unknown marked as uninitialised
  BV bytes(const Val&p,int64_t o,unsigned n){ BV r; r.reserve(n*8); for(unsigned i=0;i<n;i++){ auto it=mem.find({p.base,o+i}); if(it==mem.end()){ bool ok=false; BV b; if(p.g&&p.g->hasInitializer()) for(int ew=1;!ok&&ew<=8;ew*=2){ int64_t q=o+(int64_t)i,a=q-q%ew; b=initWord(p.g->getInitializer(),a,ew*8,ok); if(ok) b=tr(shr(b,(unsigned)(q-a)*8,0),8); } if(!ok){ if(!(p.base.rfind("alloca",0)==0||p.g)) undecided("load from "+p.base); b=BV(8); for(auto&x:b) x=uninitBit(); } it=mem.emplace(std::make_pair(p.base,o+(int64_t)i),b).first; } r.insert(r.end(),it->second.begin(),it->second.end()); } return r; }
  vector<int64_t> places(const Val&p,unsigned es){ vector<int64_t> r; for(auto it=mem.lower_bound({p.base,INT64_MIN});it!=mem.end()&&it->first.first==p.base;++it){ int64_t q=it->first.second; bool fit=true; for(unsigned b=0;(1u<<b)<es;b++){ int t=p.off[b]; if(t<2&&t!=((q>>b)&1)) fit=false; } for(unsigned i=1;fit&&i<es;i++) if(!mem.count({p.base,q+(int64_t)i})) fit=false; if(fit) r.push_back(q); } return r; }
  void put(const Val&p,int64_t o,const BV&b,int g){ unsigned n=b.size()/8; for(unsigned i=0;i<n;i++){ BV v(b.begin()+i*8,b.begin()+i*8+8); if(g==1){ mem[{p.base,o+(int64_t)i}]=v; continue; } BV old=bytes(p,o+i,1); mem[{p.base,o+(int64_t)i}]=mux(g,v,old); } }
  std::function<void(const string&,const BV&,int)> tableHook; 
  void store(const Val&p,const BV&b,int cur){ if(p.k!=Val::Ptr) undecided("store through a non-pointer"); uint64_t o; if(!isC(p.off,&o)){ if(storeHook&&storeHook(p,b,cur)) return; BV v=ext(b,(b.size()+7)/8*8,false); int hit=0; for(int64_t q:places(p,v.size()/8)){ int c=B.AND(cur,eq(p.off,cst((uint64_t)q,64))); if(!c) continue; hit=B.OR(hit,c); put(p,q,v,c); } if(B.AND(B.AND(cur,axioms),B.NOT(hit))) undecided("store with unknown index to "+p.base); return; }
    put(p,(int64_t)o,ext(b,(b.size()+7)/8*8,false),cur==axioms?1:cur); }
  std::function<bool(const Val&,const BV&,int)> storeHook;
  Val intr(IntrinsicInst&I,int cur){ auto id=I.getIntrinsicID(); auto A=[&](unsigned i){ return geti(I.getArgOperand(i)); };
    switch(id){
      case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::dbg_value: case Intrinsic::dbg_declare: case Intrinsic::experimental_noalias_scope_decl: return Val();
      case Intrinsic::umax: { BV a=A(0),b=A(1); return iv(mux(ult(a,b),b,a)); } case Intrinsic::umin: { BV a=A(0),b=A(1); return iv(mux(ult(a,b),a,b)); }
      case Intrinsic::smax: { BV a=A(0),b=A(1); return iv(mux(slt(a,b),b,a)); } case Intrinsic::smin: { BV a=A(0),b=A(1); return iv(mux(slt(a,b),a,b)); }
      case Intrinsic::abs: { BV a=A(0); return iv(mux(a.back(),neg(a),a)); }
      case Intrinsic::ctpop: { BV a=A(0); BV r=cst(0,a.size()); for(int x:a){ BV t=cst(0,a.size()); t[0]=x; r=add(r,t); } return iv(r); }
      case Intrinsic::bitreverse: { BV a=A(0); std::reverse(a.begin(),a.end()); return iv(a); }
      case Intrinsic::bswap: { BV a=A(0),r(a.size()); unsigned n=a.size()/8; for(unsigned i=0;i<n;i++) for(int j=0;j<8;j++) r[i*8+j]=a[(n-1-i)*8+j]; return iv(r); }
      case Intrinsic::ctlz: { BV a=A(0); BV r=cst(a.size(),a.size()); for(size_t i=0;i<a.size();i++) r=mux(a[i],cst(a.size()-1-i,a.size()),r); return iv(r); }
      case Intrinsic::cttz: { BV a=A(0); BV r=cst(a.size(),a.size()); for(int i=(int)a.size()-1;i>=0;i--) r=mux(a[i],cst(i,a.size()),r); return iv(r); }
      case Intrinsic::fshl: case Intrinsic::fshr: { BV a=A(0),b=A(1),s=A(2); uint64_t k; unsigned w=a.size(); BV c=b; if(!isC(s,&k)){ if(w&(w-1)) undecided("funnel shift by a variable"); unsigned lw=0; while((1u<<lw)<w) lw++; BV t=tr(s,lw); t.resize(lw+1,0); BV r(w); c.insert(c.end(),a.begin(),a.end()); if(id==Intrinsic::fshl){ c=shv(c,t,0); return iv(BV(c.begin()+w,c.end())); } c=shv(c,t,1); return iv(tr(c,w)); } k%=w; c.insert(c.end(),a.begin(),a.end()); BV r(w); for(unsigned i=0;i<w;i++) r[i]=id==Intrinsic::fshl?c[w+i-k]:c[i+k]; return iv(r); }
      case Intrinsic::uadd_with_overflow: { BV a=A(0),b=A(1); int co; BV r=add(a,b,0,&co); Val v; v.k=Val::Agg; v.f={iv(r),iv(BV{co})}; return v; }
      case Intrinsic::usub_with_overflow: { BV a=A(0),b=A(1); Val v; v.k=Val::Agg; v.f={iv(sub(a,b)),iv(BV{ult(a,b)})}; return v; }
      case Intrinsic::sadd_with_overflow: { BV a=A(0),b=A(1); BV r=add(a,b); int o=B.AND(B.NOT(B.XOR(a.back(),b.back())),B.XOR(a.back(),r.back())); Val v; v.k=Val::Agg; v.f={iv(r),iv(BV{o})}; return v; }
      case Intrinsic::ssub_with_overflow: { BV a=A(0),b=A(1); BV r=sub(a,b); int o=B.AND(B.XOR(a.back(),b.back()),B.XOR(a.back(),r.back())); Val v; v.k=Val::Agg; v.f={iv(r),iv(BV{o})}; return v; }
      case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: { BV a=A(0),b=A(1); unsigned w=a.size(); bool s=id==Intrinsic::smul_with_overflow; BV r=mulx(ext(a,2*w,s),ext(b,2*w,s),cur); BV lo=tr(r,w); int o=B.NOT(eq(r,ext(lo,2*w,s))); Val v; v.k=Val::Agg; v.f={iv(lo),iv(BV{o})}; return v; }
      case Intrinsic::usub_sat: { BV a=A(0),b=A(1); return iv(mux(ult(a,b),cst(0,a.size()),sub(a,b))); }
      case Intrinsic::uadd_sat: { BV a=A(0),b=A(1); int co; BV r=add(a,b,0,&co); return iv(mux(co,BV(a.size(),1),r)); }
      case Intrinsic::memset: { Val d=get(I.getArgOperand(0)); uint64_t o,n; BV L=A(2),V=A(1); if(d.k!=Val::Ptr||!isC(d.off,&o)||!isC(L,&n)){ string q; raw_string_ostream os(q); I.print(os); undecided("memset"+os.str()+" ptr "+std::to_string((int)d.k)+" off "+std::to_string(isC(d.off,&o))+" len "+[&]{ string z; for(int x:L) z+=x<2?std::to_string(x):B.names.count(B.n[x].v)?B.names[B.n[x].v]+" ":"v"+std::to_string(B.n[x].v)+" "; return z; }()); } for(uint64_t i=0;i<n;i++) put(d,(int64_t)(o+i),V,cur==axioms?1:cur); return Val(); }
      case Intrinsic::memcpy: case Intrinsic::memmove: { Val d=get(I.getArgOperand(0)),s=get(I.getArgOperand(1)); uint64_t o,q,n; if(d.k!=Val::Ptr||s.k!=Val::Ptr||!isC(d.off,&o)||!isC(s.off,&q)||!isC(A(2),&n)) undecided("memcpy"); BV v=bytes(s,(int64_t)q,n); put(d,(int64_t)o,v,cur==axioms?1:cur); // and the pointers stored in it
          vector<pair<int64_t,Val>> ps; for(auto it=pmem.lower_bound({s.base,(int64_t)q});it!=pmem.end()&&it->first.first==s.base&&it->first.second<(int64_t)(q+n);++it) ps.push_back({it->first.second-(int64_t)q,it->second}); for(auto&c:ps){ auto key=std::make_pair(d.base,(int64_t)o+c.first); auto it=pmem.find(key); pmem[key]=it==pmem.end()||cur==1?c.second:mux2(cur,c.second,it->second); } return Val(); }
      case Intrinsic::trap: case Intrinsic::ubsantrap: check("no undefined arithmetic reachable",cur); return Val();
      default: undecided("intrinsic "+I.getCalledFunction()->getName().str()); } }
  Val call(CallBase&CB,int cur){ Function*fn=CB.getCalledFunction(); if(!fn) undecided("indirect call"); if(auto*ii=dyn_cast<IntrinsicInst>(&CB)) return intr(*ii,cur); string n=fn->getName().str();
    if(n.rfind("bv_sym",0)==0){ uint64_t k; if(!isC(geti(CB.getArgOperand(0)),&k)) undecided("symbol index"); return iv(symbol((int)k,CB.getType()->getIntegerBitWidth(),"s"+std::to_string(k))); }
    if(n=="bv_eq"||n=="bv_eq128"){ BV a=geti(CB.getArgOperand(1)),b=geti(CB.getArgOperand(2)); check(strOf(CB.getArgOperand(0)),B.AND(cur,B.NOT(eq(a,b)))); return Val(); }
    if(n=="bv_true"){ BV a=geti(CB.getArgOperand(1)); check(strOf(CB.getArgOperand(0)),B.AND(cur,B.NOT(a[0]))); return Val(); }
    if(n=="bv_gf2"){ // (name, value): exports the value as a linear map over GF(2) of the input bits
      BV a=geti(CB.getArgOperand(1)); string nm=strOf(CB.getArgOperand(0)); string js; bool lin=true; for(size_t i=0;i<a.size();i++){ std::set<int> vars,seen; std::function<void(int)> sup=[&](int f){ if(f<2||!seen.insert(f).second) return; vars.insert(B.n[f].v); sup(B.n[f].lo); sup(B.n[f].hi); }; sup(a[i]); int x=0; for(int v:vars) x=B.XOR(x,B.mk(v,0,1)); if(x!=a[i]) lin=false; string row; for(int v:vars) row+=(row.empty()?"":",")+string("\"")+B.names[v]+"\""; js+=(i?",":"")+string("[")+row+"]"; }
      obls.push_back({nm+" is linear over GF(2)",TOP->getName().str(),lin?"ok":"FAIL",lin?"":"some output bit is not an exclusive-or of input bits"}); extraJson.push_back("{\"fn\":\""+TOP->getName().str()+"\",\"name\":\""+esc(nm)+"\",\"linear\":"+(lin?"true":"false")+",\"rows\":["+js+"]}"); return Val(); }
    if(n=="__ubsan_handle_dummy") return Val();
    if(fn->isDeclaration()) undecided("call to "+n);
    if(++depth>60) undecided("recursion too deep in "+n); Frame fr(*fn); fr.tableHook=tableHook; fr.storeHook=storeHook; unsigned i=0; for(auto&a:fn->args()) fr.val[&a]=get(CB.getArgOperand(i++)); fr.run(cur); depth--; return fr.ret; }
  // products of two wide unknowns are abstracted (same operands, same product); everything else is exact
  BV mulx(BV a,BV b,int cur){ for(auto&x:a) x=B.restr(x,cur); for(auto&x:b) x=B.restr(x,cur); auto sp=[](const BV&v){ unsigned n=0; for(int x:v) n+=x>1; return n; }; unsigned sa=sp(a),sb=sp(b); if(sa==0||sb==0||std::min(effw(a),effw(b))<=9||sa*sb<=81) return mulv(a,b); auto ones=[](const BV&v){ std::set<int> s; for(int x:v) if(x) s.insert(x); return s.size(); }; if(ones(a)<=2||ones(b)<=2) return mulv(a,b);
    { int ha=0,hb=0; for(size_t i=1;i<a.size();i++) ha=B.OR(ha,a[i]); for(size_t i=1;i<b.size();i++) hb=B.OR(hb,b[i]); if(B.AND(cur,B.AND(ha,hb))==0){ BV r(a.size()); for(size_t i=0;i<r.size();i++) r[i]=B.ite(ha,B.AND(b[0],a[i]),B.AND(a[0],b[i])); return r; } }
    if(b<a) std::swap(a,b); static map<pair<BV,BV>,BV> cache; static int gen=-1; if(gen!=FNO){ gen=FNO; cache.clear(); } auto it=cache.find({a,b}); if(it==cache.end()) it=cache.emplace(std::make_pair(a,b),freshSym(a.size(),"product")).first; return it->second; }
  // abstracted remainder/quotient by a non-constant: only the defining inequalities are kept
  // exact for narrow operands: restoring division
  bool narrow(const BV&a,unsigned k){ for(unsigned i=k;i<a.size();i++) if(a[i]!=0) return false; return true; }
  Val remExact(const BV&a,const BV&d,bool wantQ){ const unsigned K=8; unsigned w=a.size(); unsigned n=w<K?w:K; BV r=cst(0,n+1),q=cst(0,w),dd(n+1); for(unsigned i=0;i<=n;i++) dd[i]=i<n?d[i]:0; for(int i=n-1;i>=0;i--){ for(unsigned j=n;j>0;j--) r[j]=r[j-1]; r[0]=a[i]; int ge=B.NOT(ult(r,dd)); BV s=sub(r,dd); for(unsigned j=0;j<=n;j++) r[j]=B.ite(ge,s[j],r[j]); q[i]=ge; } if(wantQ) return iv(q); BV o=cst(0,w); for(unsigned i=0;i<n;i++) o[i]=r[i]; return iv(o); }
  Val remAbs(const BV&a,const BV&d,bool wantQ,int cur){ if(narrow(a,8)&&narrow(d,8)) return remExact(a,d,wantQ); static map<pair<BV,BV>,pair<BV,BV>> cache; static int gen=-1; if(gen!=FNO){ gen=FNO; cache.clear(); } auto key=std::make_pair(a,d); auto it=cache.find(key); if(it==cache.end()){ unsigned w=a.size(); BV r=freshSym(w,"rem"),q=freshSym(w,"quo"); int z=eq(d,cst(0,w)); int ax=B.AND(ult(r,d),B.NOT(ult(a,r))); ax=B.AND(ax,B.NOT(ult(a,q))); int small=ult(a,d); ax=B.AND(ax,B.OR(B.NOT(small),B.AND(eq(r,a),eq(q,cst(0,w))))); int same=eq(a,d); ax=B.AND(ax,B.OR(B.NOT(same),eq(r,cst(0,w)))); axioms=B.AND(axioms,B.OR(z,ax)); it=cache.emplace(key,std::make_pair(q,r)).first; } return iv(wantQ?it->second.first:it->second.second); }
  // evaluates the function, or (body given) one pass through a loop body from its header, whose phis are already bound
  void run(int guard,BasicBlock*head=nullptr,const std::set<BasicBlock*>*body=nullptr){
    nF++; ReversePostOrderTraversal<Function*> RPO(&F); map<const BasicBlock*,int> idx; vector<BasicBlock*> ord; for(auto*bb:RPO){ idx[bb]=(int)ord.size(); ord.push_back(bb); }
    struct In { const BasicBlock*from; int g; map<const PHINode*,Val> phi; }; map<int,vector<In>> pend; pend[head?idx[head]:0].push_back({nullptr,guard,{}});
    while(!pend.empty()){ int bi=pend.begin()->first; vector<In> ins=std::move(pend.begin()->second); pend.erase(pend.begin()); BasicBlock*bb=ord[bi]; int cur=0; for(auto&i:ins) cur=B.OR(cur,i.g); if(!B.AND(cur,axioms)) continue;
      map<const PHINode*,Val> nv; if(bb!=head) for(auto&ph:bb->phis()){ Val v; for(auto&i:ins){ auto it=i.phi.find(&ph); if(it==i.phi.end()) continue; v=v.k==Val::None?it->second:mux2(i.g,it->second,v); } nv[&ph]=v; } if(bb!=head) for(auto&p:nv) set(p.first,p.second,cur);
      auto edge=[&](BasicBlock*to,int g){ if(body&&(to==head||!body->count(to))) return; if(!B.AND(g,axioms)) return; In in{bb,g,{}}; for(auto&ph:to->phis()){ in.phi[&ph]=get(ph.getIncomingValueForBlock(bb)); } pend[idx[to]].push_back(std::move(in)); };
      for(auto&I:*bb){ if(isa<PHINode>(&I)) continue; if(++steps>20000000) undecided("analysis budget exhausted (unbounded loop?)"); nI++; if(I.isTerminator()){ if(auto*br=dyn_cast<BranchInst>(&I)){ if(br->isUnconditional()) edge(br->getSuccessor(0),cur); else { if(body&&(!body->count(br->getSuccessor(0))||!body->count(br->getSuccessor(1)))){ edge(br->getSuccessor(0),cur); edge(br->getSuccessor(1),cur); continue; } int c=geti(br->getCondition())[0]; edge(br->getSuccessor(0),B.AND(cur,c)); edge(br->getSuccessor(1),B.AND(cur,B.NOT(c))); } } else if(auto*sw=dyn_cast<SwitchInst>(&I)){ BV c=geti(sw->getCondition()); int rest=cur; map<BasicBlock*,int> e; for(auto&cs:sw->cases()){ int g=B.AND(rest,eq(c,cst(cs.getCaseValue()->getValue()))); rest=B.AND(rest,B.NOT(g)); e[cs.getCaseSuccessor()]=B.OR(e[cs.getCaseSuccessor()],g); } e[sw->getDefaultDest()]=B.OR(e[sw->getDefaultDest()],rest); for(auto&p:e) edge(p.first,p.second); } else if(auto*r=dyn_cast<ReturnInst>(&I)){ if(r->getReturnValue()){ Val v=get(r->getReturnValue()); ret=ret.k==Val::None?v:mux2(cur,v,ret); } retG=B.OR(retG,cur); } else if(isa<UnreachableInst>(&I)){} else if(auto*iv_=dyn_cast<InvokeInst>(&I)){ Val v=call(*iv_,cur); if(v.k!=Val::None) set(&I,v,cur); edge(iv_->getNormalDest(),cur); } else if(isa<ResumeInst>(&I)){} else undecided("terminator"); continue; }
        step(I,cur); } } }
  void step(Instruction&I,int cur){
    if(I.isDebugOrPseudoInst()) return;
    if(auto*al=dyn_cast<AllocaInst>(&I)){ Val p; p.k=Val::Ptr; p.base="alloca"+std::to_string(id)+"."+std::to_string(nall++); p.off=cst(0,64); if(!val.count(&I)) val[&I]=p; (void)al; return; }
    if(auto*g=dyn_cast<GetElementPtrInst>(&I)){ MapVector<Value*,APInt> VO; APInt c(64,0); if(!g->collectOffset(*DLp,64,VO,c)) undecided("address"); Val p=get(g->getPointerOperand()); if(p.k!=Val::Ptr) undecided("address of non-pointer"); p.off=add(p.off,cst(c)); for(auto&kv:VO){ BV i=geti(kv.first); i=i.size()<64?ext(i,64,true):tr(i,64); p.off=add(p.off,mulv(i,cst(kv.second))); } set(&I,p,cur); return; }
    if(auto*l=dyn_cast<LoadInst>(&I)){ if(l->getType()->isPointerTy()){ Val p=get(l->getPointerOperand()); uint64_t o; if(p.k==Val::Ptr&&isC(p.off,&o)){ auto it=pmem.find({p.base,(int64_t)o}); if(it!=pmem.end()){ set(&I,it->second,cur); return; } } undecided("pointer loaded from memory"); } set(&I,iv(load(get(l->getPointerOperand()),width(l->getType()),cur)),cur); return; }
    if(auto*s=dyn_cast<StoreInst>(&I)){ if(s->getValueOperand()->getType()->isPointerTy()){ Val p=get(s->getPointerOperand()); uint64_t o; if(p.k!=Val::Ptr||!isC(p.off,&o)) undecided("pointer stored to memory"); auto key=std::make_pair(p.base,(int64_t)o); Val nv=get(s->getValueOperand()); auto it=pmem.find(key); pmem[key]=it==pmem.end()?nv:mux2(cur,nv,it->second); return; } if(!s->getValueOperand()->getType()->isIntegerTy()) undecided("store of non-integer"); store(get(s->getPointerOperand()),geti(s->getValueOperand()),cur); return; }
    if(auto*s=dyn_cast<SelectInst>(&I)){ set(&I,mux2(geti(s->getCondition())[0],get(s->getTrueValue()),get(s->getFalseValue())),cur); return; }
    if(isa<FreezeInst>(&I)){ set(&I,get(I.getOperand(0)),cur); return; }
    if(auto*c=dyn_cast<ICmpInst>(&I)){ Val A=get(c->getOperand(0)),C=get(c->getOperand(1)); int r; if(A.k==Val::Ptr&&C.k==Val::Ptr){ if(A.base!=C.base){ bool idA=A.base.rfind("alloca",0)==0||A.base[0]=='@'||A.base=="null"; (void)idA; r=0; } else r=eq(A.off,C.off); if(c->getPredicate()==CmpInst::ICMP_NE) r=B.NOT(r); else if(c->getPredicate()!=CmpInst::ICMP_EQ) undecided("pointer order"); set(&I,iv(BV{r}),cur); return; }
      if(A.k!=Val::Int||C.k!=Val::Int) undecided("comparison"); BV&a=A.b,&b=C.b; switch(c->getPredicate()){ case CmpInst::ICMP_EQ: r=eq(a,b); break; case CmpInst::ICMP_NE: r=B.NOT(eq(a,b)); break; case CmpInst::ICMP_ULT: r=ult(a,b); break; case CmpInst::ICMP_ULE: r=B.NOT(ult(b,a)); break; case CmpInst::ICMP_UGT: r=ult(b,a); break; case CmpInst::ICMP_UGE: r=B.NOT(ult(a,b)); break; case CmpInst::ICMP_SLT: r=slt(a,b); break; case CmpInst::ICMP_SLE: r=B.NOT(slt(b,a)); break; case CmpInst::ICMP_SGT: r=slt(b,a); break; case CmpInst::ICMP_SGE: r=B.NOT(slt(a,b)); break; default: undecided("predicate"); } set(&I,iv(BV{r}),cur); return; }
    if(auto*CB=dyn_cast<CallBase>(&I)){ Val v=call(*CB,cur); if(v.k!=Val::None) set(&I,v,cur); return; }
    if(auto*ev=dyn_cast<ExtractValueInst>(&I)){ Val v=get(ev->getAggregateOperand()); for(unsigned i:ev->indices()){ if(v.k!=Val::Agg||i>=v.f.size()) undecided("aggregate"); Val t=v.f[i]; v=t; } set(&I,v,cur); return; }
    if(auto*in=dyn_cast<InsertValueInst>(&I)){ Val v=get(in->getAggregateOperand()); if(in->getNumIndices()!=1||v.k!=Val::Agg) undecided("aggregate"); v.f[in->getIndices()[0]]=get(in->getInsertedValueOperand()); set(&I,v,cur); return; }
    if(auto*bo=dyn_cast<BinaryOperator>(&I)){ if(!I.getType()->isIntegerTy()) undecided("non-integer arithmetic"); BV a=geti(bo->getOperand(0)),b=geti(bo->getOperand(1)),r(a.size()); unsigned w=a.size(); uint64_t k; switch(bo->getOpcode()){
        case Instruction::Add: r=add(a,b); break; case Instruction::Sub: r=sub(a,b); break; case Instruction::Mul: r=mulx(a,b,cur); break; case Instruction::And: for(unsigned i=0;i<w;i++) r[i]=B.AND(a[i],b[i]); break; case Instruction::Or: for(unsigned i=0;i<w;i++) r[i]=B.OR(a[i],b[i]); break; case Instruction::Xor: for(unsigned i=0;i<w;i++) r[i]=B.XOR(a[i],b[i]); break;
        case Instruction::Shl: r=isC(b,&k)?(k<w?shl(a,k):cst(0,w)):shv(a,b,0); break; case Instruction::LShr: r=isC(b,&k)?(k<w?shr(a,k,0):cst(0,w)):shv(a,b,1); break; case Instruction::AShr: r=isC(b,&k)?(k<w?shr(a,k,a.back()):BV(w,a.back())):shv(a,b,2); break;
        case Instruction::UDiv: case Instruction::URem: { bool q=bo->getOpcode()==Instruction::UDiv; for(auto&x:a) x=B.restr(x,cur); for(auto&x:b) x=B.restr(x,cur); unsigned e=std::max(effw(a),effw(b)); if(e>8&&!(isC(b)&&(e<=24||e-effw(b)<=4))){ set(&I,remAbs(a,b,q,cur),cur); return; } BV Q,R; if(e==0) e=1; divv(tr(a,e),tr(b,e),Q,R); r=ext(q?Q:R,w,false); break; }
        case Instruction::SDiv: case Instruction::SRem: { bool q=bo->getOpcode()==Instruction::SDiv; for(auto&x:a) x=B.restr(x,cur); for(auto&x:b) x=B.restr(x,cur); BV ua=mux(a.back(),neg(a),a),ub=mux(b.back(),neg(b),b); for(auto&x:ua) x=B.restr(x,cur); for(auto&x:ub) x=B.restr(x,cur); BV Q,R; unsigned e=std::max(effw(ua),effw(ub)); if(e>8&&!(isC(ub)&&(e<=24||e-effw(ub)<=4))){ Q=remAbs(ua,ub,true,cur).b; R=remAbs(ua,ub,false,cur).b; } else { if(e==0) e=1; divv(tr(ua,e),tr(ub,e),Q,R); Q=ext(Q,w,false); R=ext(R,w,false); } r=q?mux(B.XOR(a.back(),b.back()),neg(Q),Q):mux(a.back(),neg(R),R); break; }
        default: undecided("operator"); } set(&I,iv(r),cur); return; }
    if(auto*ca=dyn_cast<CastInst>(&I)){ if(!I.getType()->isIntegerTy()||!ca->getSrcTy()->isIntegerTy()) undecided("cast"); BV a=geti(ca->getOperand(0)); unsigned w=width(I.getType()); if(isa<ZExtInst>(ca)) a=ext(a,w,false); else if(isa<SExtInst>(ca)) a=ext(a,w,true); else if(isa<TruncInst>(ca)) a=tr(a,w); else undecided("cast"); set(&I,iv(a),cur); return; }
    if(isa<FenceInst>(&I)) return; string s; raw_string_ostream os(s); I.print(os); undecided("instruction "+os.str()); }
  static map<pair<string,int64_t>,Val> pmem;
};
map<pair<string,int64_t>,Val> Frame::pmem;
// ---------------------------------------------------------------- induction over start-up table fills
// For every table with a specification spec_<T>(i): each loop of an initialiser that stores T[x] for x = lo..hi-1 must store
// spec_T(x), assuming T already holds its specification below x; entries outside every loop must match the static initialiser.
struct Other { PHINode*phi; APInt start,step; };
struct Loop { BasicBlock*hd,*latch; PHINode*iv; uint64_t lo,hi; std::set<BasicBlock*> body; vector<BasicBlock*> order; vector<Other> other; };
static void runLoop(Function&F,const Loop&L,const map<string,vector<pair<uint64_t,uint64_t>>>&filled,const std::set<string>&targets){
  unsigned w=L.iv->getType()->getIntegerBitWidth(),nb=0; while((1ull<<nb)<L.hi) nb++; BV x=symbol(0,nb,"x"); x.resize(w,0); int in=B.AND(B.NOT(ult(x,cst(L.lo,w))),ult(x,cst(L.hi,w)));
  Frame lf(F); lf.val[L.iv]=iv(x);
  lf.tableHook=[&](const string&t,const BV&i0,int g){ BV i=i0.size()>w?tr(i0,w):ext(i0,w,false); int done=0; if(targets.count(t)) done=B.OR(ult(i,x),ult(i,cst(L.lo,w))); auto it=filled.find(t); if(it!=filled.end()){ uint64_t first=~0ull; for(auto&r:it->second){ first=std::min(first,r.first); done=B.OR(done,ult(i,cst(r.second,w))); } } lf.check("start-up tables are read only where they are already filled",B.AND(g,B.NOT(done))); };
  lf.storeHook=[&](const Val&p,const BV&b,int g){ if(!p.g) return false; auto ts=tableSpec.find(p.g->getName().str()); if(ts==tableSpec.end()) return false; unsigned es=b.size()/8,l=0; while((1u<<l)<es) l++; BV i=tr(shr(p.off,l,0),std::min(w,64u)); if(i.size()<w) i=ext(i,w,false); lf.check("start-up loop fills "+ts->second+" at its counter",B.AND(g,B.NOT(eq(i,x)))); BV s=lf.specCall("spec_"+ts->second,x,b.size(),g); lf.check("start-up loop stores the specified "+ts->second,B.AND(g,B.NOT(eq(s,b)))); lf.check("start-up loop stores every "+ts->second,B.AND(in,B.NOT(g))); return true; };
  for(auto&o:L.other){ BV d=sub(x,cst(L.lo,w)); unsigned ow=o.phi->getType()->getIntegerBitWidth(); d=ow>w?ext(d,ow,false):tr(d,ow); lf.val[o.phi]=iv(add(cst(o.start),mulv(d,cst(o.step)))); }
  lf.run(in,L.hd,&L.body); }
static void tables(Function&F){
  TOP=&F; mem.clear(); Frame::pmem.clear(); axioms=1; ReversePostOrderTraversal<Function*> RPO(&F); map<const BasicBlock*,int> idx; int c=0; for(auto*bb:RPO) idx[bb]=c++;
  std::set<BasicBlock*> outer; map<string,vector<pair<uint64_t,uint64_t>>> filled; auto und=[&](const string&n,const string&d){ obls.push_back({n,"w_tables","UNDECIDED",d}); };
  for(auto*hd:RPO){ BasicBlock*latch=nullptr; for(auto*p:predecessors(hd)) if(idx.count(p)&&idx[p]>=idx[hd]) latch=p; if(!latch) continue;
    PHINode*iv0=nullptr; ConstantInt*start=nullptr; unsigned nphi=0; vector<Other> other; for(auto&ph:hd->phis()){ nphi++; if(!ph.getType()->isIntegerTy()||ph.getNumIncomingValues()!=2) continue; int li=ph.getIncomingBlock(0)==latch?0:1; auto*st=dyn_cast<ConstantInt>(ph.getIncomingValue(1-li)); auto*in=dyn_cast<BinaryOperator>(ph.getIncomingValue(li)); if(st&&in&&in->getOpcode()==Instruction::Add&&in->getOperand(0)==&ph&&isa<ConstantInt>(in->getOperand(1))){ auto*step=cast<ConstantInt>(in->getOperand(1)); bool decides=false; for(auto*u:ph.users()) if(isa<ICmpInst>(u)) decides=true; for(auto*u:in->users()) if(isa<ICmpInst>(u)) decides=true; if(step->isOne()&&(!iv0||decides)&&!(iv0&&[&]{ for(auto*u:iv0->users()) if(isa<ICmpInst>(u)) return true; return false; }())){ if(iv0) other.push_back({iv0,start->getValue(),APInt(iv0->getType()->getIntegerBitWidth(),1)}); iv0=&ph; start=st; } else other.push_back({&ph,st->getValue(),step->getValue()}); } }
    if(outer.count(hd)) continue;
    if(!iv0||nphi!=1+other.size()){ und("start-up loop has a single counter","no canonical counter"); continue; }
    Loop L; L.hd=hd; L.latch=latch; L.iv=iv0; L.lo=start->getZExtValue(); bool found=false; vector<BasicBlock*> wl{latch}; L.body.insert(hd); while(!wl.empty()){ auto*b=wl.back(); wl.pop_back(); if(!L.body.insert(b).second) continue; for(auto*p:predecessors(b)) wl.push_back(p); } L.other=other; for(auto*b:L.body) outer.insert(b);
    unsigned exits=0,understood=0;
    for(auto*b:L.body) if(auto*br=dyn_cast<BranchInst>(b->getTerminator())) if(br->isConditional()){ bool e0=!L.body.count(br->getSuccessor(0)),e1=!L.body.count(br->getSuccessor(1)); if(!e0&&!e1) continue; exits++; bool was=found; found=false; struct G{bool&f,w;unsigned&u; ~G(){ if(f) u++; f=f||w; }} g_{found,was,understood}; if(auto*cm=dyn_cast<ICmpInst>(br->getCondition())) if(auto*lim=dyn_cast<ConstantInt>(cm->getOperand(1))){ Value*v=cm->getOperand(0); bool next=v!=iv0; if(next){ auto*bo=dyn_cast<BinaryOperator>(v); if(!bo||bo->getOperand(0)!=iv0) continue; } uint64_t K=lim->getZExtValue(); auto pr=cm->getPredicate(); if(e1) pr=CmpInst::getInversePredicate(pr);
            if(pr==CmpInst::ICMP_EQ){ if(next||b==hd&&b!=latch){ L.hi=K; found=true; } else { L.hi=K+1; found=true; } } else if(pr==CmpInst::ICMP_UGE||pr==CmpInst::ICMP_SGE){ L.hi=(next||(b==hd&&b!=latch))?K:K+1; found=true; } else if(pr==CmpInst::ICMP_UGT||pr==CmpInst::ICMP_SGT){ L.hi=(next||(b==hd&&b!=latch))?K+1:K+2; found=true; } } }
    if(!found||understood!=exits){ und("start-up loop bound","exit condition not understood"); continue; }
    L.order.assign(L.body.begin(),L.body.end()); std::sort(L.order.begin(),L.order.end(),[&](BasicBlock*a,BasicBlock*b){return idx[a]<idx[b];});
    std::set<string> targets; for(auto*b:L.order) for(auto&I:*b) if(auto*st=dyn_cast<StoreInst>(&I)){ APInt o(64,0); const Value*p=st->getPointerOperand(); while(auto*g=dyn_cast<GEPOperator>(p)) p=g->getPointerOperand(); if(auto*gv=dyn_cast<GlobalVariable>(p)) targets.insert(gv->getName().str()); }
    // which specification does each table follow?  the loop decides: the first specification whose induction goes through
    vector<string> tv(targets.begin(),targets.end()),sv(specs.begin(),specs.end()); vector<size_t> pick(tv.size(),0); vector<Obl> keep=obls,best; bool ok=false; size_t bestBad=~0ull;
    if(tv.empty()||sv.empty()){ und("start-up loop fills a table","no table or no specification"); continue; }
    while(true){ obls.clear(); for(size_t i=0;i<tv.size();i++) tableSpec[tv[i]]=sv[pick[i]]; bool distinct=true; try { runLoop(F,L,filled,targets); } catch(Undecided&u){ obls.push_back({"start-up loop body","w_tables","UNDECIDED",u.why}); } (void)distinct;
      for(auto&t:tv){ auto*G=MOD->getNamedGlobal(t); auto*at=dyn_cast<ArrayType>(G->getValueType()); Obl o{"entries of "+tableSpec[t]+" outside the start-up loops","w_tables","ok",""}; if(!at||!G->hasInitializer()){ o.status="UNDECIDED"; obls.push_back(o); continue; } uint64_t n=at->getNumElements(); unsigned es=DLp->getTypeAllocSize(at->getElementType()); if(n-std::min(n,L.hi)+L.lo>4096){ o.status="FAIL"; o.detail="most of the table is not filled"; } else if(L.hi>n){ o.status="FAIL"; o.detail="the loop runs past the table"; } else for(uint64_t i=0;i<n;i++) if(i<L.lo||i>=L.hi){ bool k; Frame f2(F); BV e=f2.initWord(G->getInitializer(),i*es,es*8,k); BV s=f2.specCall("spec_"+tableSpec[t],cst(i,32),es*8,1); if(!k||eq(e,s)!=1){ o.status="FAIL"; o.detail="entry "+std::to_string(i); break; } } obls.push_back(o); }
      size_t bad=0; for(auto&o:obls) if(o.status!="ok") bad++; if(bad<bestBad){ bestBad=bad; best=obls; } if(!bad){ ok=true; break; } size_t k=0; while(k<tv.size()&&++pick[k]==sv.size()) pick[k++]=0; if(k==tv.size()) break; }
    obls=keep; for(auto&o:best) obls.push_back(o); for(auto&t:tv) filled[t].push_back({L.lo,L.hi}); (void)ok;
  } }
int main(int argc,char**argv){
  LLVMContext C; SMDiagnostic E; auto M=parseIRFile(argv[1],E,C); if(!M){ E.print("bitv",errs()); return 3; } MOD=M.get(); DataLayout DL(M.get()); DLp=&DL; string initFn;
  for(int i=2;i<argc;i++){ string a=argv[i]; if(a.rfind("--init=",0)==0) initFn=a.substr(7); }
  for(auto&F:*M) if(!F.isDeclaration()&&F.getName().starts_with("spec_")) specs.insert(F.getName().substr(5).str());
  if(!initFn.empty()){ Function*I=nullptr; for(auto&F:*M) if(!F.isDeclaration()&&F.getName().contains(initFn)) I=&F; if(!I) obls.push_back({"start-up function present","tables","UNDECIDED","no function matching "+initFn}); else { size_t before=obls.size(); try { tables(*I); } catch(Undecided&u){ obls.push_back({"start-up tables","tables","UNDECIDED",u.why}); } for(size_t i=before;i<obls.size();i++) obls[i].fn="w_tables"; } }
  string only; for(int i=2;i<argc;i++){ string a=argv[i]; if(a.rfind("--fn=",0)==0) only=a.substr(5); } size_t total=0;
  for(auto&F:*M){ if(F.isDeclaration()||!F.getName().starts_with("w_")) continue; if(!only.empty()&&!Regex(only).match(F.getName())) continue; if(getenv("BV_TIME")) errs()<<F.getName()<<" "<<clock()/1000<<"ms "<<B.n.size()<<"\n"; total+=B.n.size(); B.n.resize(2); B.uniq.clear(); B.iteC.clear(); FNO++; TOP=&F; mem.clear(); Frame::pmem.clear(); steps=0; axioms=1; fresh=0; depth=0; size_t before=obls.size(); try { Frame fr(F); fr.run(1); } catch(Undecided&u){ obls.push_back({"<function>",F.getName().str(),"UNDECIDED",u.why}); } bool trap=false; for(size_t i=before;i<obls.size();i++) if(obls[i].name=="no undefined arithmetic reachable") trap=true; if(!trap) obls.push_back({"no undefined arithmetic reachable",F.getName().str(),"ok",""}); }
  total+=B.n.size(); printf("{\"functions\":%u,\"values\":%u,\"bdd_nodes\":%zu,\"extra\":[",nF,nI,total); for(size_t i=0;i<extraJson.size();i++) printf("%s%s",i?",\n":"",extraJson[i].c_str()); printf("],\"obligations\":[\n");
  for(size_t i=0;i<obls.size();i++){ auto&o=obls[i]; printf("%s{\"name\":\"%s\",\"fn\":\"%s\",\"status\":\"%s\",\"detail\":\"%s\"}",i?",\n":"",esc(o.name).c_str(),esc(o.fn).c_str(),o.status.c_str(),esc(o.detail).c_str()); }
  printf("]}\n"); return 0; }
