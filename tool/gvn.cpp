#include <cmath>
// gvn: global value numbering over optimised LLVM IR with an algebraic normal-form domain.
//
// Input: a bitcode file produced from a witness translation unit (witness/*.cpp) that instantiates the
// library's templates with an *opaque* element type (extern pure functions ring_*) and states obligations by
// calling the sinks vf_eq / vf_iff / vf_true.  The tool never executes anything and never calls a solver: it
// numbers every SSA value of each witness function (forward, one pass in topological order), in the domain
//     ring values     -> rational functions with integer coefficients (canonical polynomials num/den)
//     booleans        -> reduced ordered BDDs over comparison atoms
//     machine ints    -> polynomials modulo 2^w over opaque atoms
//     merges (phi/select) -> guarded unions, guard = BDD
// and compares the value numbers of the two sides of each obligation.
#include "llvm/ADT/APSInt.h"
#include "llvm/Analysis/ConstantFolding.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/IR/Dominators.h"
#include <map>
#include <set>
#include <vector>
#include <string>
#include <memory>
#include <functional>
#include <unordered_map>
#include <iostream>
#include <sstream>
#include "llvm/Support/Regex.h"
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <unistd.h>
#include <signal.h>
using namespace llvm;
using std::string; using std::vector; using std::map; using std::pair;

static string undecided_reason;
struct Undecided { string why; };
[[noreturn]] static void undecided(const string& why) { throw Undecided{why}; }

// ---------------------------------------------------------------- BDD
struct Bdd {
  struct N { int v, lo, hi; };
  vector<N> n{{1<<30,0,0},{1<<30,1,1}};
  struct H { size_t operator()(const std::tuple<int,int,int>&k) const { uint64_t h=(uint64_t)std::get<0>(k)*0x9E3779B97F4A7C15ull; h=(h^(uint64_t)std::get<1>(k))*0xC2B2AE3D27D4EB4Full; h=(h^(h>>29)^(uint64_t)std::get<2>(k))*0x165667B19E3779F9ull; return h^(h>>32); } };
  std::unordered_map<std::tuple<int,int,int>,int,H> uniq, iteC;
  vector<string> names;
  int mk(int v,int lo,int hi){ if(lo==hi) return lo; auto k=std::make_tuple(v,lo,hi); auto it=uniq.find(k); if(it!=uniq.end()) return it->second;
    n.push_back({v,lo,hi}); if(n.size()>16000000) undecided("BDD too large"); if(iteC.size()>24000000) iteC.clear(); return uniq[k]=(int)n.size()-1; }
  int var(int v){ return mk(v,0,1); }
  int ite(int f,int g,int h){ if(f==1) return g; if(f==0) return h; if(g==h) return g; if(g==1&&h==0) return f;
    auto k=std::make_tuple(f,g,h); auto it=iteC.find(k); if(it!=iteC.end()) return it->second;
    int v=std::min(n[f].v,std::min(n[g].v,n[h].v));
    auto co=[&](int x,bool b){ return n[x].v==v ? (b?n[x].hi:n[x].lo) : x; };
    int lo=ite(co(f,0),co(g,0),co(h,0)), hi=ite(co(f,1),co(g,1),co(h,1));
    return iteC[k]=mk(v,lo,hi); }
  int AND(int a,int b){return ite(a,b,0);} int OR(int a,int b){return ite(a,1,b);} int NOT(int a){return ite(a,0,1);} int XOR(int a,int b){return ite(a,NOT(b),b);}
  string show(int f,int depth=0){ if(f==0) return "F"; if(f==1) return "T"; if(depth>4) return "..."; return "("+names[n[f].v]+" ? "+show(n[f].hi,depth+1)+" : "+show(n[f].lo,depth+1)+")"; }
  string witness(int f){ string s; while(f>1){ if(n[f].hi){ s+=(s.empty()?"":" & ")+names[n[f].v]; f=n[f].hi;} else { s+=(s.empty()?"!":" & !")+names[n[f].v]; f=n[f].lo; } } return s.empty()?"true":s; }
} B;

// ---------------------------------------------------------------- polynomials (integer coefficients, optional 2^w modulus)
struct Atoms { map<string,int> id; vector<string> name; int get(const string& s){ auto it=id.find(s); if(it!=id.end()) return it->second; int k=(int)name.size(); name.push_back(s); id[s]=k; return k; } } A;
typedef vector<pair<int,int>> Mono; // sorted (atom, exp)
typedef __int128 Z;
struct Poly { map<Mono,Z> t; };
static string zs(Z z){ bool neg=z<0; unsigned __int128 u=neg?-(unsigned __int128)z:(unsigned __int128)z; string s; do{ s=char('0'+(int)(u%10))+s; u/=10; }while(u); return (neg?"-":"")+s; }
static string show(const Mono& m){ string s; for(auto&p:m){ if(!s.empty()) s+="*"; s+=A.name[p.first]; if(p.second!=1) s+="^"+std::to_string(p.second);} return s; }
static string show(const Poly& p){ if(p.t.empty()) return "0"; string s; for(auto&kv:p.t){ if(!s.empty()) s+=" + "; string m=show(kv.first); if(m.empty()) s+=zs(kv.second); else if(kv.second==1) s+=m; else s+=zs(kv.second)+"*"+m; } return s; }
static Mono mulM(const Mono&a,const Mono&b){ Mono r; size_t i=0,j=0; while(i<a.size()||j<b.size()){ if(j==b.size()||(i<a.size()&&a[i].first<b[j].first)) r.push_back(a[i++]); else if(i==a.size()||b[j].first<a[i].first) r.push_back(b[j++]); else { r.push_back({a[i].first,a[i].second+b[j].second}); i++;j++; } } return r; }
static const Z BIG=(Z)1<<100;
static void chk(Z z){ if(z>BIG||z<-BIG) undecided("coefficient overflow"); }
static void addTo(Poly&r,const Mono&m,Z c){ chk(c); auto it=r.t.find(m); if(it==r.t.end()){ if(c!=0) r.t[m]=c; } else { it->second+=c; chk(it->second); if(it->second==0) r.t.erase(it);} }
static Poly cst(Z c){ Poly p; if(c!=0) p.t[Mono()]=c; return p; }
static Poly atomP(int a){ Poly p; p.t[Mono{{a,1}}]=1; return p; }
static Poly add(const Poly&a,const Poly&b,Z s=1){ Poly r=a; for(auto&kv:b.t) addTo(r,kv.first,s*kv.second); return r; }
static Poly mul(const Poly&a,const Poly&b){ Poly r; for(auto&x:a.t) for(auto&y:b.t){ if(x.second>BIG/((y.second<0?-y.second:y.second)+1)||-x.second>BIG/((y.second<0?-y.second:y.second)+1)) undecided("coefficient overflow"); addTo(r,mulM(x.first,y.first),x.second*y.second);} if(r.t.size()>200000) undecided("polynomial too large"); return r; }
static bool operator==(const Poly&a,const Poly&b){ return a.t==b.t; }
static Poly modw(const Poly&p,unsigned w){ Poly r; Z M=(Z)1<<w; Z H=(Z)1<<(w-1); for(auto&kv:p.t){ Z c=kv.second%M; if(c<0) c+=M; if(c>=H) c-=M; if(c) r.t[kv.first]=c; } return r; }
static bool isCst(const Poly&p,Z&c){ if(p.t.empty()){c=0;return true;} if(p.t.size()==1&&p.t.begin()->first.empty()){c=p.t.begin()->second;return true;} return false; }

// ---------------------------------------------------------------- values
enum Kind { KRing, KBool, KInt, KPtr, KUndef };
struct Val { Kind k=KUndef; Poly num, den; int b=0; unsigned w=0; string base; int64_t off=0; };
static Val ringV(Poly n,Poly d=cst(1)){ Val v; v.k=KRing; v.num=std::move(n); v.den=std::move(d); return v; }
static Val boolV(int b){ Val v; v.k=KBool; v.b=b; return v; }
static Val intV(Poly p,unsigned w){ Val v; v.k=KInt; v.num=modw(p,w); v.den=cst(1); v.w=w; return v; }
static Val ptrV(const string& b,int64_t o){ Val v; v.k=KPtr; v.base=b; v.off=o; return v; }
static Z gcdz(Z a,Z b){ if(a<0)a=-a; if(b<0)b=-b; while(b){Z t=a%b;a=b;b=t;} return a; }
static bool divPoly(const Poly&a,const Poly&b,Poly&q); // exact division
static void reduceR(Val&v){ // cheap canonicalisation of num/den
  if(v.num.t.empty()){ v.den=cst(1); return; }
  Z c; if(isCst(v.den,c)&&c==1) return;
  if(v.num==v.den){ v.num=cst(1); v.den=cst(1); return; }
  Poly q; if(divPoly(v.num,v.den,q)){ v.num=q; v.den=cst(1); return; }
  if(divPoly(v.den,v.num,q)){ v.num=cst(1); v.den=q; }
  // common monomial + integer content
  auto strip=[&](){ Mono cm; bool first=true; Z g=0; for(auto*P:{&v.num,&v.den}) for(auto&kv:P->t){ g=gcdz(g,kv.second); if(first){cm=kv.first;first=false;} else { Mono r; for(auto&x:cm) for(auto&y:kv.first) if(x.first==y.first) r.push_back({x.first,std::min(x.second,y.second)}); cm=r; } }
    if(v.den.t.begin()->second<0) g=-g;
    auto dv=[&](Poly&P){ Poly r; for(auto&kv:P.t){ Mono m; for(auto&x:kv.first){ int e=x.second; for(auto&y:cm) if(y.first==x.first) e-=y.second; if(e) m.push_back({x.first,e}); } r.t[m]=kv.second/g; } P=r; };
    dv(v.num); dv(v.den); };
  strip();
}
static bool lmLess(const Mono&a,const Mono&b){ return a<b; }
static bool divM(const Mono&a,const Mono&b,Mono&q){ q.clear(); size_t j=0; for(auto&x:a){ int e=x.second; while(j<b.size()&&b[j].first<x.first) return false; if(j<b.size()&&b[j].first==x.first){ e-=b[j].second; j++; if(e<0) return false; } if(e) q.push_back({x.first,e}); } return j==b.size(); }
// graded-lex comparable leading monomial for division
static bool glex(const Mono&a,const Mono&b){ int da=0,db=0; for(auto&x:a)da+=x.second; for(auto&x:b)db+=x.second; if(da!=db) return da<db; // lex on atoms
  size_t i=0,j=0; while(i<a.size()&&j<b.size()){ if(a[i].first!=b[j].first) return a[i].first>b[j].first; if(a[i].second!=b[j].second) return a[i].second<b[j].second; i++;j++; } return i==a.size()&&j<b.size(); }
static pair<Mono,Z> lead(const Poly&p){ auto it=p.t.begin(); auto best=it; for(;it!=p.t.end();++it) if(glex(best->first,it->first)) best=it; return *best; }
static bool divPoly(const Poly&a,const Poly&b,Poly&q){ if(b.t.empty()) return false; Poly r=a; q=Poly(); auto lb=lead(b); int it=0; while(!r.t.empty()){ if(++it>400) return false; auto lr=lead(r); Mono m; if(!divM(lr.first,lb.first,m)||lr.second%lb.second!=0) return false; Z c=lr.second/lb.second; addTo(q,m,c); Poly s; s.t[m]=c; r=add(r,mul(s,b),-1); } return true; }
static string keyR(const Val&v){ Z c; if(isCst(v.den,c)&&c==1) return show(v.num); return "("+show(v.num)+")/("+show(v.den)+")"; }
static string show(const Val&v){ switch(v.k){ case KRing: return keyR(v); case KBool: return B.show(v.b); case KInt: return "i"+std::to_string(v.w)+":"+show(v.num); case KPtr: return "&"+v.base+"+"+std::to_string(v.off); default: return "undef"; } }
static bool eqV(const Val&a,const Val&b){ if(a.k!=b.k) return false; switch(a.k){ case KRing: if(a.num==b.num&&a.den==b.den) return true; return mul(a.num,b.den)==mul(b.num,a.den); case KBool: return a.b==b.b; case KInt: return a.w==b.w&&a.num==b.num; case KPtr: return a.base==b.base&&a.off==b.off; default: return false; } }
// under guard g, are a and b equal?  splits g on the equality atoms it depends on and uses the ones that hold
static void bddSupport(int f,std::set<int>&s,std::set<int>&seen);
static bool eqUnder(int g,const Val&a,const Val&b,int depth=0);
typedef vector<pair<int,Val>> GV; // guarded (disjoint guards)
static int simp(int c);
static void pushG(GV&g,int guard,const Val&v){ guard=simp(guard); if(!guard) return; for(auto&p:g) if((p.second.k==KUndef&&v.k==KUndef)||eqV(p.second,v)){ p.first=simp(B.OR(p.first,guard)); return; } g.push_back({guard,v}); if(g.size()>256) undecided("too many guarded alternatives"); }
static GV one(const Val&v){ GV g; g.push_back({1,v}); return g; }
static GV map1(const GV&a,std::function<Val(const Val&)> f){ GV r; for(auto&x:a) pushG(r,x.first,f(x.second)); return r; }
static GV map2(const GV&a,const GV&b,std::function<Val(const Val&,const Val&)> f){ GV r; for(auto&x:a) for(auto&y:b){ int g=B.AND(x.first,y.first); if(g) pushG(r,g,f(x.second,y.second)); } return r; }
static int toBdd(const GV&g){ int r=0; for(auto&p:g){ if(p.second.k!=KBool) undecided("non-boolean condition"); r=B.OR(r,B.AND(p.first,p.second.b)); } return r; }
static GV fromBdd(int b){ return one(boolV(b)); }

// equality atoms remember the polynomial they assert to be zero, so a comparison made under a guard may use it
static map<int,Poly> eqAtomPoly, ltAtomPoly;
static map<string,int> bvar; 
static int boolAtom(const string& s){ auto it=bvar.find(s); if(it!=bvar.end()) return B.var(it->second); int v=(int)B.names.size(); B.names.push_back(s); bvar[s]=v; return B.var(v); }

// Order axioms: the comparison atoms between plain symbols obey the laws of a total order.  `axioms` collects those laws for the atoms met
// so far; guards are taken modulo them (an impossible guard counts as false, a tautology modulo the laws as true).
static int axioms=1; static map<int,map<int,pair<int,int>>> cmpAtomsOf[3]; // ring, signed, unsigned; i<j: (equality atom, less-than atom)
static int simp(int c){ if(axioms==1||c<2) return c; if(!B.AND(c,axioms)) return 0; if(!B.AND(B.NOT(c),axioms)) return 1; return c; }
static void orderAtoms(const Poly&n,int E,int L,int dom=0){ auto&cmpAtoms=cmpAtomsOf[dom]; // n = x_i - x_j with atoms i<j
  if(n.t.size()!=2) return; int p=-1,m=-1; for(auto&kv:n.t){ if(kv.first.size()!=1||kv.first[0].second!=1) return; if(kv.second==1) p=kv.first[0].first; else if(kv.second==-1) m=kv.first[0].first; else return; } if(p<0||m<0) return;
  bool sw=p>m; int i=std::min(p,m),j=std::max(p,m); if(cmpAtoms.count(i)&&cmpAtoms[i].count(j)) return; if(sw) L=B.AND(B.NOT(E),B.NOT(L)); // L: x_i < x_j
  cmpAtoms[i][j]={E,L}; auto at=[&](int a,int b,int&e,int&l,int&g){ bool f=a>b; auto it=cmpAtoms.find(std::min(a,b)); if(it==cmpAtoms.end()) return false; auto jt=it->second.find(std::max(a,b)); if(jt==it->second.end()) return false; e=jt->second.first; int x=B.AND(B.NOT(e),jt->second.second),y=B.AND(B.NOT(e),B.NOT(jt->second.second)); l=f?y:x; g=f?x:y; return true; };
  std::set<int> other; for(auto&a:cmpAtoms){ other.insert(a.first); for(auto&b:a.second) other.insert(b.first); }
  for(int k:other){ if(k==i||k==j) continue; int e1,l1,g1,e2,l2,g2,e3,l3,g3; if(!at(i,j,e1,l1,g1)||!at(j,k,e2,l2,g2)||!at(i,k,e3,l3,g3)) continue;
    int le1=B.OR(e1,l1),le2=B.OR(e2,l2),ge1=B.OR(e1,g1),ge2=B.OR(e2,g2); int law=1; auto imp=[&](int a,int b){ law=B.AND(law,B.OR(B.NOT(a),b)); };
    imp(B.AND(e1,e2),e3); imp(B.AND(B.AND(le1,le2),B.OR(l1,l2)),l3); imp(B.AND(B.AND(ge1,ge2),B.OR(g1,g2)),g3); axioms=B.AND(axioms,law); } }
// comparison atoms on ring values: canonical in the difference a-b = n/d
static bool gOrderDen=true;
static int ringCmp(const Val&a,const Val&b,bool lt){
  Val d=ringV(add(mul(a.num,b.den),mul(b.num,a.den),-1), mul(a.den,b.den)); reduceR(d);
  Z c; if(isCst(d.num,c)&&(c==0)) return lt?0:1;
  if(isCst(d.num,c)&&isCst(d.den,c)) { Z x,y; isCst(d.num,x); isCst(d.den,y); if(!lt) return 0; return ((x<0)!=(y<0))?1:0; }
  // E: equality atom on primitive numerator, sign-normalised
  Poly n=d.num; Z g=0; for(auto&kv:n.t) g=gcdz(g,kv.second); bool flip=lead(n).second<0; for(auto&kv:n.t) kv.second/=(flip?-g:g);
  int E=0; { // a product is zero when a factor is (no zero divisors): split off the monomial content
    Mono common=n.t.begin()->first; for(auto&kv:n.t){ Mono c2; for(auto&x:common) for(auto&y:kv.first) if(x.first==y.first) c2.push_back({x.first,std::min(x.second,y.second)}); common=c2; }
    if(!common.empty()){ for(auto&x:common){ Poly a=atomP(x.first); int e=boolAtom("["+show(a)+" == 0]"); eqAtomPoly[B.n[e].v]=a; E=B.OR(E,e); } Poly q; for(auto&kv:n.t){ Mono m; divM(kv.first,common,m); q.t[m]=kv.second; } n=q; }
    Z cc; if(!isCst(n,cc)){ int e=boolAtom("["+show(n)+" == 0]"); eqAtomPoly[B.n[e].v]=n; E=B.OR(E,e); } }
  if(!lt) return E;
  // sign of d: normalise by leading coefficient of numerator; the denominator keeps its sign
  Poly nn=d.num; Z gg=0; for(auto&kv:nn.t) gg=gcdz(gg,kv.second); for(auto&kv:nn.t) kv.second/=(flip?-gg:gg);
  string ks=show(nn); if(!(isCst(d.den,c))) ks="("+ks+")/("+show(d.den)+")"; else if(c<0) flip=!flip;
  int L=boolAtom("["+ks+" < 0]"); ltAtomPoly[B.n[L].v]=nn; if(isCst(d.den,c)&&E>1&&eqAtomPoly.count(B.n[E].v)&&eqAtomPoly[B.n[E].v]==nn) orderAtoms(nn,E,L); // d' < 0, d = +-d'
  int res=flip?B.NOT(L):L; // a<b iff d<0
  return B.AND(B.NOT(E),res);
}

static void bddSupport(int f,std::set<int>&s,std::set<int>&seen){ if(f<2||!seen.insert(f).second) return; s.insert(B.n[f].v); bddSupport(B.n[f].lo,s,seen); bddSupport(B.n[f].hi,s,seen); }
// Is n = 0 a consequence of  z = 0 for all z  and  nz != 0 for all nz ?  Gaussian-style elimination of variables that occur linearly
// with a coefficient known to be non-zero.  Also true when the facts contradict each other.
static bool usesAtom(const Poly&p,int a){ for(auto&kv:p.t) for(auto&x:kv.first) if(x.first==a) return true; return false; }
static bool implied(Poly n,vector<Poly> z,vector<Poly> nz){
  for(int round=0;round<40;round++){
    for(auto&q:nz) if(q.t.empty()) return true;
    if(n.t.empty()) return true;
    for(size_t i=0;i<z.size();){ Poly&p=z[i]; if(p.t.empty()){ z.erase(z.begin()+i); continue; }
      for(auto&q:nz){ Poly r; Z c; if(isCst(q,c)) continue; for(int k=0;k<8&&divPoly(p,q,r);k++) p=r; }
      // a factor of p that divides a non-zero q is itself non-zero: tried for the single atoms of p's content and for the rest of p
      { Mono cm=p.t.begin()->first; for(auto&kv:p.t){ Mono m; for(auto&x:cm) for(auto&y:kv.first) if(x.first==y.first) m.push_back({x.first,std::min(x.second,y.second)}); cm=m; }
        if(!cm.empty()){ Poly rest; for(auto&kv:p.t){ Mono m; divM(kv.first,cm,m); rest.t[m]=kv.second; } Z k; Poly r; Mono left;
          for(auto&x:cm){ bool z0=false; for(auto&q:nz) if(divPoly(q,atomP(x.first),r)){ z0=true; break; } if(!z0) left.push_back({x.first,1}); }
          if(!isCst(rest,k)) for(auto&q:nz){ Poly pr=rest; Z g=0; for(auto&kv:pr.t) g=gcdz(g,kv.second); for(auto&kv:pr.t) kv.second/=g; if(divPoly(q,pr,r)){ rest=cst(1); break; } }
          p=Poly(); for(auto&kv:rest.t){ p.t[mulM(kv.first,left)]=kv.second; } } }
      Z c; if(isCst(p,c)) return true; i++; }
    int best=-1,bv=-1,bscore=3; Poly bc,br;
    for(size_t i=0;i<z.size();i++){ auto&p=z[i]; std::set<int> vs; for(auto&kv:p.t) for(auto&x:kv.first) vs.insert(x.first);
      for(int v:vs){ if(p.t.size()==1&&vs.size()==1){ best=i; bv=v; bscore=0; bc=cst(1); br=Poly(); break; }
        Poly c,r; bool lin=true; for(auto&kv:p.t){ Mono m; int e=0; for(auto&x:kv.first) if(x.first==v) e=x.second; else m.push_back(x); if(e>1){ lin=false; break; } (e?c:r).t[m]=kv.second; } if(!lin) continue;
        Z k; int score=9; if(isCst(c,k)) score=(k==1||k==-1)?1:2; else { Poly d=c,q; for(auto&y:nz){ Z kk; if(isCst(y,kk)) continue; for(int t=0;t<8&&divPoly(d,y,q);t++) d=q; } if(isCst(d,k)) score=2; } 
        if(score<bscore){ bscore=score; best=i; bv=v; bc=c; br=r; } }
      if(bscore==0) break; }
    if(best<0) break;
    z.erase(z.begin()+best); Poly mr; for(auto&kv:br.t) mr.t[kv.first]=-kv.second; // bc*v = mr
    auto sub=[&](const Poly&P){ if(!usesAtom(P,bv)) return P; int dg=0; for(auto&t:P.t) for(auto&x:t.first) if(x.first==bv) dg=std::max(dg,x.second); vector<Poly> pr{cst(1)},pc{cst(1)}; for(int i=0;i<dg;i++){ pr.push_back(mul(pr.back(),mr)); pc.push_back(mul(pc.back(),bc)); }
      Poly r; for(auto&t:P.t){ Mono m; int e=0; for(auto&x:t.first) if(x.first==bv) e=x.second; else m.push_back(x); Poly c; c.t[m]=t.second; r=add(r,mul(c,mul(pr[e],pc[dg-e]))); } return r; };
    n=sub(n); for(auto&p:z) p=sub(p); for(auto&p:nz) p=sub(p);
  }
  if(n.t.empty()) return true; for(auto&p:z){ Poly q; if(divPoly(n,p,q)) return true; }
  return false; }
// Walks the paths of a guard with the equalities that hold (z) and that are denied (nz); contradictory paths are dropped.  Returns true
// when `leaf` holds on every remaining path.
typedef std::function<bool(const vector<Poly>&,const vector<Poly>&)> Leaf;
static int topRet=0; // where the witness comes to its end
static string failPath; static int mayThrow=0; // where the witness expects a throw
static bool everyPath(int g,vector<Poly>&z,vector<Poly>&nz,const Leaf&leaf,long&steps,bool grew=true){
  if(!g) return true; if(grew&&leaf(z,nz)) return true; if(g==1){ failPath=""; for(auto&p:z) failPath+=(failPath.empty()?"":" & ")+("["+show(p)+" == 0]"); for(auto&p:nz) failPath+=(failPath.empty()?"":" & ")+("["+show(p)+" != 0]"); return false; } if(--steps<0){ failPath="(too many paths)"; return false; }
  int v=B.n[g].v,lo=B.n[g].lo,hi=B.n[g].hi; auto it=eqAtomPoly.find(v); auto lt=ltAtomPoly.find(v);
  if(hi){ if(it!=eqAtomPoly.end()){ z.push_back(it->second); bool r=everyPath(hi,z,nz,leaf,steps); z.pop_back(); if(!r) return false; }
    else if(lt!=ltAtomPoly.end()){ if(!implied(lt->second,z,nz)){ nz.push_back(lt->second); bool r=everyPath(hi,z,nz,leaf,steps); nz.pop_back(); if(!r) return false; } }
    else if(!everyPath(hi,z,nz,leaf,steps,false)) return false; }
  if(lo){ if(it!=eqAtomPoly.end()){ nz.push_back(it->second); bool r=everyPath(lo,z,nz,leaf,steps); nz.pop_back(); if(!r) return false; } else if(!everyPath(lo,z,nz,leaf,steps,false)) return false; }
  return true; }
// does g hold for some consistent assignment?  (false only when every path is contradictory)
static bool feasible(int g){ g=B.AND(g,axioms); if(!g) return false; vector<Poly> z,nz; long steps=20000; return !everyPath(g,z,nz,[&](const vector<Poly>&zz,const vector<Poly>&nn){ return implied(cst(1),zz,nn); },steps); }
static bool eqUnder(int g,const Val&a,const Val&b,int){ if(eqV(a,b)) return true; g=B.AND(g,axioms); if(!g) return true; if(a.k!=KRing||b.k!=KRing) return !feasible(g);
  Poly d=add(mul(a.num,b.den),mul(b.num,a.den),-1); vector<Poly> z,nz; long steps=20000; return everyPath(g,z,nz,[&](const vector<Poly>&zz,const vector<Poly>&nn){ return implied(d,zz,nn); },steps); }
// ---------------------------------------------------------------- function analysis
struct Obl { string name, fn, status, detail; };
static vector<Obl> obls;
static unsigned nFuncs=0,nValues=0;

struct FA {
  Function&F; const DataLayout&DL; map<const Value*,GV> val; map<const BasicBlock*,int> reach; map<const BasicBlock*,unsigned> visits;
  typedef map<pair<string,int64_t>,GV> Mem; Mem mem; struct In { int guard; vector<GV> phis; std::shared_ptr<const Mem> mem; }; map<int,vector<In>> pending; vector<const BasicBlock*> order; int cur=1; unsigned fresh=0;
  // heap objects: allocation guard, size, and the condition under which they have been freed (blocks are visited in topological order)
  struct Obj { int64_t size; int alloc; int freed; };
  struct World { map<string,Obj> heap; string memBad; unsigned nalloca=0, depth=0, budget=50000000; }; World own; World&W; map<string,Obj>&heap; string&memBad; map<const BasicBlock*,int> idx;
  GV ret; int retGuard=0; std::shared_ptr<const Mem> retMem; FA*caller=nullptr;
  static void mergeMem(Mem&m,const vector<pair<int,const Mem*>>&ins){ std::set<pair<string,int64_t>> keys; for(auto&i:ins) for(auto&kv:*i.second) keys.insert(kv.first);
    for(auto&key:keys){ bool same=true; const GV*g0=nullptr; for(auto&i:ins){ auto it=i.second->find(key); if(it==i.second->end()||it->second.size()!=1||it->second[0].first!=1||(g0&&!eqV((*g0)[0].second,it->second[0].second))){ same=false; break; } g0=&it->second; } if(same){ m[key]=*g0; continue; }
      GV g; for(auto&i:ins){ auto it=i.second->find(key); if(it==i.second->end()){ bool cov=false; for(int b=1;b<8&&!cov;b++){ auto q=i.second->find({key.first,key.second-b}); if(q==i.second->end()) continue; for(auto&x:q->second) if(x.second.k==KInt&&(int)x.second.w>8*b){ cov=true; } if(cov) for(auto&x:q->second) pushG(g,B.AND(i.first,x.first),x.second.k==KInt&&(int)x.second.w>8*b?piece(x.second,8*b,x.second.w-8*b):Val()); } if(!cov) pushG(g,i.first,Val()); } else for(auto&x:it->second) pushG(g,B.AND(i.first,x.first),x.second); } m[key]=g; } }
  void bad(const string& w){ if(memBad.empty()) memBad=w; }
  GV live(const GV&g){ GV r; for(auto&x:g) if(simp(B.AND(cur,x.first))) r.push_back(x); return r; }
  void access(const Val&p,int64_t len,int g,const char*what){ g=simp(g); if(!g||p.k!=KPtr) return; if(p.base=="null"){ bad(string(what)+" through a null pointer"); return; } auto it=heap.find(p.base); if(it==heap.end()) return; if(simp(B.AND(g,it->second.freed))) bad(string(what)+" of "+p.base+" after it was freed"); if(it->second.size>=0&&(p.off<0||p.off+len>it->second.size)) bad(string(what)+" at offset "+std::to_string(p.off)+" of a "+std::to_string(it->second.size)+" byte block"); }
  void freeAt(const GV&p0){ for(auto&x:live(p0)){ int g=B.AND(cur,x.first); if(x.second.k!=KPtr){ undecided("free of "+show(x.second)); } if(x.second.base=="null") continue; auto it=heap.find(x.second.base); if(it==heap.end()){ bad("delete of "+x.second.base+", which is not a heap block"); continue; } if(x.second.off) bad("delete of an interior pointer of "+x.second.base); if(simp(B.AND(g,it->second.freed))) bad("second delete of "+x.second.base); it->second.freed=B.OR(it->second.freed,g); if(g==cur&&p0.size()==1) mem.erase(mem.lower_bound({it->first,INT64_MIN}),mem.upper_bound({it->first,INT64_MAX})); } }
  FA(Function&f):F(f),DL(f.getParent()->getDataLayout()),W(own),heap(own.heap),memBad(own.memBad){}
  FA(Function&f,FA&c):F(f),DL(c.DL),W(c.W),heap(c.W.heap),memBad(c.W.memBad),caller(&c){}
  GV get(const Value*v){
    if(auto*c=dyn_cast<ConstantInt>(v)){ if(c->getBitWidth()==1) return fromBdd(c->isOne()); if(c->getBitWidth()>64) undecided("wide int"); return one(intV(cst((Z)c->getSExtValue()),c->getBitWidth())); }
    if(isa<ConstantPointerNull>(v)) return one(ptrV("null",0));
    if(isa<UndefValue>(v)||isa<PoisonValue>(v)){ Val u; return one(u); }
    if(isa<Function>(v)) return one(ptrV("@"+v->getName().str(),0));
    if(auto*g=dyn_cast<GlobalVariable>(v)) return one(ptrV("@"+g->getName().str(),0));
    if(auto*ce=dyn_cast<ConstantExpr>(v)){ if(ce->getOpcode()==Instruction::IntToPtr) if(auto*ci=dyn_cast<ConstantInt>(ce->getOperand(0))) return one(ptrV("int",ci->getSExtValue())); if(ce->getOpcode()==Instruction::GetElementPtr){ APInt off(64,0); const Value*b=ce->stripAndAccumulateConstantOffsets(DL,off,true); GV g=get(b); for(auto&p:g) p.second.off+=off.getSExtValue(); return g; } string cs; raw_string_ostream cos(cs); ce->print(cos); undecided("constant expression "+cos.str()); }
    if(auto*cf=dyn_cast<ConstantFP>(v)) return one(fpV(cf->getValueAPF()));
    auto it=val.find(v); if(it==val.end()){ string s; raw_string_ostream os(s); v->print(os); undecided("value without number: "+os.str()); } return it->second; }
  Val atomOf(Type*t,const string& s){ if(t->isIntegerTy(1)) return boolV(boolAtom(s)); if(t->isIntegerTy()) return intV(atomP(A.get(s)),t->getIntegerBitWidth()); if(t->isPointerTy()) return ptrV(s,0); return ringV(atomP(A.get(s))); }
  static Poly ringOf(const Val&v){ if(v.k==KRing) return v.num; undecided("ring value expected, got "+show(v)); }
  Val asRing(const Val&v){ if(v.k==KRing) return v; if(v.k==KInt){ // i64 handle that is an unknown machine value
      return ringV(atomP(A.get("h{"+show(v)+"}"))); } if(v.k==KUndef) return ringV(atomP(A.get("UNINIT"))); undecided("ring value expected, got "+show(v)); }
  // ring automorphism: swaps every atom with its conjugate
  static Poly conjP(const Poly&p){ Poly r; for(auto&kv:p.t){ Poly m=cst(kv.second); for(auto&x:kv.first){ string nm=A.name[x.first]; string cn=nm.rfind("conj{",0)==0&&nm.back()=='}'?nm.substr(5,nm.size()-6):"conj{"+nm+"}"; Poly a=atomP(A.get(cn)); for(int i=0;i<x.second;i++) m=mul(m,a); } r=add(r,m); } return r; }
  // greatest common divisor up to sign: symmetric, gcd(0,b)=b, gcd(a,a)=a, gcd(a/g, b/g)=1 for g=gcd(a,b)
  static Poly posLead(Poly p){ if(!p.t.empty()&&lead(p).second<0) for(auto&kv:p.t) kv.second=-kv.second; return p; }
  static string gcdKey(const Poly&a,const Poly&b){ string x=show(posLead(a)),y=show(posLead(b)); if(y<x) std::swap(x,y); return "gcd{"+x+","+y+"}"; }
  Val gcdV(const Val&a,const Val&b){ Z c; if(a.num.t.empty()) return b; if(b.num.t.empty()) return a; if(a.den==b.den&&posLead(a.num)==posLead(b.num)) return a; if(isCst(a.num,c)&&isCst(a.den,c)&&c==1&&(isCst(a.num,c),(c==1||c==-1))) return ringV(cst(1)); if(isCst(b.num,c)&&isCst(b.den,c)&&c==1&&(isCst(b.num,c),(c==1||c==-1))) return ringV(cst(1));
    if(a.den==b.den&&!isCst(a.den,c)&&posLead(a.den)==atomP(A.get(gcdKey(a.num,b.num)))) return ringV(cst(1));
    if(isCst(a.den,c)&&c==1&&isCst(b.den,c)&&c==1) return ringV(atomP(A.get(gcdKey(a.num,b.num))));
    return ringV(atomP(A.get("gcd{"+keyR(a)+","+keyR(b)+"}"))); }
  int64_t aggOff(Type*t,ArrayRef<unsigned> ix){ int64_t o=0; for(unsigned i:ix){ if(auto*st=dyn_cast<StructType>(t)){ o+=DL.getStructLayout(st)->getElementOffset(i); t=st->getElementType(i); } else { t=t->getArrayElementType(); o+=i*(int64_t)(uint64_t)DL.getTypeAllocSize(t); } } return o; }
  // floating-point numbers: constants only (load factors of hash tables), kept as their bit pattern
  static Val fpV(const APFloat&f){ APInt b=f.bitcastToAPInt(); return intV(cst((Z)b.getSExtValue()),b.getBitWidth()); }
  static APFloat fpOf(const Val&v,Type*t){ Z c; if(v.k!=KInt||!isCst(v.num,c)) undecided("floating-point arithmetic on a value that is not constant"); return APFloat(t->getFltSemantics(),APInt(t->getPrimitiveSizeInBits(),(uint64_t)(int64_t)c,true)); }
  static bool isPrime(uint64_t n){ if(n<2) return false; for(uint64_t d=2;d*d<=n;d++) if(n%d==0) return false; return true; }
  // copies (or fills) every (length, target, source) alternative under its guard
  void xfer(const GV&lg,const GV&dg,const GV&sg,bool set,Z fillByte){
          struct Wr { string base; int64_t off; int g; GV v; }; vector<Wr> wr; struct Cl { Val p; int64_t L; int g; }; vector<Cl> cl;
          for(auto&l:lg){ Z lc; if(l.second.k!=KInt||!isCst(l.second.num,lc)) undecided("memory transfer of unknown size"); int64_t L=(int64_t)lc; if(!L) continue; if(L<0) undecided("memory transfer of negative size");
            for(auto&d:dg) for(auto&s:sg){ int g=B.AND(l.first,B.AND(d.first,s.first)); if(!B.AND(g,cur)) continue; if(d.second.k!=KPtr||(!set&&s.second.k!=KPtr)) undecided("memory transfer through "+show(d.second)); access(d.second,L,B.AND(cur,g),"write"); cl.push_back({d.second,L,g});
              if(set){ for(int64_t o=0,n;o<L;o+=n){ n=std::min<int64_t>(L-o,8-((d.second.off+o)&7)); wr.push_back({d.second.base,d.second.off+o,g,one(intV(cst((Z)(int64_t)(0x0101010101010101ull*(uint8_t)(int64_t)fillByte)),n*8))}); } continue; }
              access(s.second,L,B.AND(cur,g),"read"); split(s.second.base,s.second.off); split(s.second.base,s.second.off+L); if(auto*cg=constGlobal(s.second.base)){ vector<pair<int64_t,Type*>> lv; leaves(cg->getType(),0,lv); GV v; for(auto&y:lv) if(y.first>=s.second.off&&y.first<s.second.off+L&&constLoad(s.second.base,y.first,y.second,v)) wr.push_back({d.second.base,d.second.off+y.first-s.second.off,g,v}); continue; } for(auto it=mem.lower_bound({s.second.base,s.second.off});it!=mem.end()&&it->first.first==s.second.base&&it->first.second<s.second.off+L;++it) wr.push_back({d.second.base,d.second.off+it->first.second-s.second.off,g,it->second}); } }
          bool sure=cl.size()==1; for(auto&c:cl){ split(c.p.base,c.p.off); split(c.p.base,c.p.off+c.L); if(sure){ clobber(c.p,c.L); continue; } int ng=B.NOT(c.g); for(auto it=mem.lower_bound({c.p.base,c.p.off});it!=mem.end()&&it->first.first==c.p.base&&it->first.second<c.p.off+c.L;){ GV r; for(auto&y:it->second) pushG(r,B.AND(ng,y.first),y.second); if(r.empty()) it=mem.erase(it); else { it->second=r; ++it; } } }
          for(auto&w:wr){ if(sure){ mem[{w.base,w.off}]=w.v; continue; } split(w.base,w.off); { auto&slot=mem[{w.base,w.off}]; for(auto&y:w.v) pushG(slot,B.AND(w.g,y.first),y.second); }
            for(auto it=mem.upper_bound({w.base,w.off});it!=mem.end()&&it->first.first==w.base&&it->first.second<w.off+8;++it) for(auto&y:w.v){ int64_t d=it->first.second-w.off; if(y.second.k==KInt&&(int64_t)y.second.w>8*d) pushG(it->second,B.AND(w.g,y.first),piece(y.second,8*d,y.second.w-8*d)); } }
  }
  GV call(CallBase&CB){
    Function*fn=CB.getCalledFunction(); if(!fn){ GV t=live(get(CB.getCalledOperand())); if(t.size()==1&&t[0].second.k==KPtr&&t[0].second.base[0]=='@') fn=F.getParent()->getFunction(t[0].second.base.substr(1)); if(!fn||fn->arg_size()!=CB.arg_size()) undecided("indirect call of "+(t.size()==1?show(t[0].second):std::to_string(t.size())+" alternatives")); } StringRef n=fn->getName();
    auto arg=[&](unsigned i){ return get(CB.getArgOperand(i)); };
    if(n=="ring_add") return map2(arg(0),arg(1),[&](const Val&a0,const Val&b0){ Val a=asRing(a0),b=asRing(b0); Val r; if(a.den==b.den) r=ringV(add(a.num,b.num),a.den); else r=ringV(add(mul(a.num,b.den),mul(b.num,a.den)),mul(a.den,b.den)); reduceR(r); return r; });
    if(n=="ring_sub") return map2(arg(0),arg(1),[&](const Val&a0,const Val&b0){ Val a=asRing(a0),b=asRing(b0); Val r; if(a.den==b.den) r=ringV(add(a.num,b.num,-1),a.den); else r=ringV(add(mul(a.num,b.den),mul(b.num,a.den),-1),mul(a.den,b.den)); reduceR(r); return r; });
    if(n=="ring_mul") return map2(arg(0),arg(1),[&](const Val&a0,const Val&b0){ Val a=asRing(a0),b=asRing(b0); Val r=ringV(mul(a.num,b.num),mul(a.den,b.den)); reduceR(r); return r; });
    if(n=="ring_div") return map2(arg(0),arg(1),[&](const Val&a0,const Val&b0){ Val a=asRing(a0),b=asRing(b0); Val r=ringV(mul(a.num,b.den),mul(a.den,b.num)); if(b.num.t.empty()) return ringV(atomP(A.get("div0{"+keyR(a)+"}"))); reduceR(r); return r; });
    if(n=="ring_mod") return map2(arg(0),arg(1),[&](const Val&a,const Val&b){ return ringV(atomP(A.get("mod{"+keyR(asRing(a))+","+keyR(asRing(b))+"}"))); });
    if(n=="ring_neg") return map1(arg(0),[&](const Val&a0){ Val a=asRing(a0); return ringV(add(Poly(),a.num,-1),a.den); });
    if(n=="ring_cst") return map1(arg(0),[&](const Val&a){ Z c; if(a.k==KInt&&isCst(a.num,c)) return ringV(cst(c)); if(a.k==KInt) return ringV(atomP(A.get("cast{"+show(a)+"}"))); return ringV(atomP(A.get("UNINIT"))); });
    if(n=="ring_sym") return map1(arg(0),[&](const Val&a){ Z c; if(a.k==KInt&&isCst(a.num,c)) return ringV(atomP(A.get("x"+zs(c)))); undecided("symbol index "+show(a)); });
    if(n=="ring_fn") return map2(arg(0),arg(1),[&](const Val&f,const Val&a){ return ringV(atomP(A.get("fn{"+show(f)+","+keyR(asRing(a))+"}"))); });
    if(n=="ring_eq") return map2(arg(0),arg(1),[&](const Val&a,const Val&b){ return boolV(ringCmp(asRing(a),asRing(b),false)); });
    if(n=="ring_lt") return map2(arg(0),arg(1),[&](const Val&a,const Val&b){ return boolV(ringCmp(asRing(a),asRing(b),true)); });
    if(n=="ring_fn2") { GV f=arg(0); Z fc; bool isG=f.size()==1&&f[0].second.k==KInt&&isCst(f[0].second.num,fc)&&fc==2; return map2(arg(1),arg(2),[&](const Val&a,const Val&b){ return isG?gcdV(asRing(a),asRing(b)):ringV(atomP(A.get("fn"+show(f[0].second)+"{"+keyR(asRing(a))+","+keyR(asRing(b))+"}"))); }); }
    if(n=="ring_conj") return map1(arg(0),[&](const Val&a0){ Val a=asRing(a0); Val r=ringV(conjP(a.num),conjP(a.den)); reduceR(r); return r; });
    if(n=="ring_hash") return map1(arg(0),[&](const Val&a){ return intV(atomP(A.get("hash{"+keyR(asRing(a))+"}")),64); });
    if(n=="int_sym"||n=="i64_sym") return map1(arg(0),[&](const Val&a){ Z c; if(a.k==KInt&&isCst(a.num,c)) return intV(atomP(A.get("n"+zs(c))),CB.getType()->getIntegerBitWidth()); undecided("symbol index "+show(a)); });
    if(n=="bool_sym") return map1(arg(0),[&](const Val&a){ Z c; if(a.k==KInt&&isCst(a.num,c)) return boolV(boolAtom("p"+zs(c))); undecided("symbol index "+show(a)); });
    if(n=="vf_any"){ static int cnt=0; return GV{{1,boolV(boolAtom("any"+std::to_string(cnt++)))}}; }
    if(n=="_Znwm"||n=="_Znam"||n=="malloc"){ GV sz=live(arg(0)); Z c; int64_t size=-1; if(sz.size()==1&&sz[0].second.k==KInt&&isCst(sz[0].second.num,c)) size=(int64_t)c; else for(auto&x:sz) if(x.second.k==KInt&&isCst(x.second.num,c)) size=std::max(size,(int64_t)c); string b="heap"+std::to_string(heap.size()); heap[b]=Obj{size,cur,0}; return one(ptrV(b,0)); }
    if(n=="_ZdlPv"||n=="_ZdaPv"||n=="_ZdlPvm"||n=="_ZdaPvm"||n=="free"){ freeAt(arg(0)); return one(Val()); }
    if(n=="_ZNSt3__112__next_primeEm") return map1(live(arg(0)),[&](const Val&a){ Z c; if(a.k!=KInt||!isCst(a.num,c)) undecided("number of hash buckets is not constant"); uint64_t p=(uint64_t)(int64_t)c; if(p) while(!isPrime(p)) p++; return intV(cst((Z)(int64_t)p),64); });
    if(CB.getType()->isDoubleTy()||CB.getType()->isFloatTy()){ // elementary functions of known arguments are folded, as the compiler does
      static const map<string,double(*)(double)> F1{{"sqrt",std::sqrt},{"cbrt",std::cbrt},{"floor",std::floor},{"ceil",std::ceil},{"round",std::round},{"trunc",std::trunc},{"fabs",std::fabs},{"log",std::log},{"log2",std::log2},{"log10",std::log10},{"exp",std::exp},{"exp2",std::exp2},{"sin",std::sin},{"cos",std::cos},{"tan",std::tan},{"atan",std::atan},{"asin",std::asin},{"acos",std::acos}};
      string m=n.str(); if(m.rfind("llvm.",0)==0) m=m.substr(5,m.find('.',5)-5); bool sp=CB.getType()->isFloatTy(); if(sp&&m.size()>1&&m.back()=='f'&&F1.count(m.substr(0,m.size()-1))) m.pop_back(); auto it=F1.find(m); Type*t=CB.getType();
      if(fn->isDeclaration()&&it!=F1.end()&&CB.arg_size()==1) return map1(live(arg(0)),[&](const Val&a)->Val{ APFloat f=fpOf(a,t); if(sp) return fpV(APFloat((float)it->second(f.convertToFloat()))); return fpV(APFloat(it->second(f.convertToDouble()))); });
      if(fn->isDeclaration()&&m=="pow"&&CB.arg_size()==2&&!sp) return map2(live(arg(0)),live(arg(1)),[&](const Val&a,const Val&b)->Val{ return fpV(APFloat(std::pow(fpOf(a,t).convertToDouble(),fpOf(b,t).convertToDouble()))); }); }
    if(fn->isDeclaration()&&(n=="llround"||n=="lround"||n.starts_with("llvm.llround")||n.starts_with("llvm.lround"))&&CB.arg_size()==1&&CB.getArgOperand(0)->getType()->isDoubleTy()) return map1(live(arg(0)),[&](const Val&a)->Val{ double v=fpOf(a,CB.getArgOperand(0)->getType()).convertToDouble(); if(!(std::fabs(v)<9.2e18)) undecided("rounding out of range"); return intV(cst((Z)std::llround(v)),64); });
    if(fn->isIntrinsic()){
      auto id=fn->getIntrinsicID();
      switch(id){ case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::dbg_value: case Intrinsic::dbg_declare: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_end: return one(Val()); case Intrinsic::invariant_start: return one(ptrV("null",0));
        case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memset: { // every (length, target, source) alternative under its guard
          bool set=id==Intrinsic::memset; Z fillByte=0; GV lg=live(arg(2)),dg=live(arg(0)),sg; if(!set) sg=live(arg(1)); else { sg=one(Val()); GV v=live(arg(1)); if(v.size()!=1||v[0].second.k!=KInt||!isCst(v[0].second.num,fillByte)) undecided("memset with an unknown byte"); }
          xfer(lg,dg,sg,set,fillByte); return one(Val()); }
        default: break; }
      if(id==Intrinsic::ceil||id==Intrinsic::floor){ Type*t=CB.getType(); if(t->isFloatTy()||t->isDoubleTy()) return map1(live(arg(0)),[&](const Val&a){ APFloat f=fpOf(a,t); f.roundToIntegral(id==Intrinsic::ceil?APFloat::rmTowardPositive:APFloat::rmTowardNegative); return fpV(f); }); }
      if((id==Intrinsic::fmuladd||id==Intrinsic::fma)&&(CB.getType()->isFloatTy()||CB.getType()->isDoubleTy())){ Type*t=CB.getType(); GV z=live(arg(2)); return map2(live(arg(0)),live(arg(1)),[&](const Val&a,const Val&b)->Val{ if(z.size()!=1) undecided("guarded addend"); APFloat x=fpOf(a,t); x.multiply(fpOf(b,t),APFloat::rmNearestTiesToEven); x.add(fpOf(z[0].second,t),APFloat::rmNearestTiesToEven); return fpV(x); }); }
      if(CB.getType()->isStructTy()&&n.contains(".with.overflow.")){ // of known operands: the wrapped result and whether it wrapped
        GV r; int ov=0; unsigned w=CB.getArgOperand(0)->getType()->getIntegerBitWidth(); Type*st=CB.getType();
        for(auto&x:live(arg(0))) for(auto&y:live(arg(1))){ int g=B.AND(x.first,y.first); if(!g) continue; Z a,b; if(x.second.k!=KInt||y.second.k!=KInt||!isCst(x.second.num,a)||!isCst(y.second.num,b)||w>64) undecided("overflow of unknown operands"); APInt p(w,(uint64_t)(int64_t)a,true),q(w,(uint64_t)(int64_t)b,true),t; bool o=false;
          switch(id){ case Intrinsic::uadd_with_overflow: t=p.uadd_ov(q,o); break; case Intrinsic::sadd_with_overflow: t=p.sadd_ov(q,o); break; case Intrinsic::usub_with_overflow: t=p.usub_ov(q,o); break; case Intrinsic::ssub_with_overflow: t=p.ssub_ov(q,o); break; case Intrinsic::umul_with_overflow: t=p.umul_ov(q,o); break; case Intrinsic::smul_with_overflow: t=p.smul_ov(q,o); break; default: undecided("intrinsic "+n.str()); }
          pushG(r,g,intV(cst((Z)t.getSExtValue()),w)); if(o) ov=B.OR(ov,g); }
        string b="alloca"+std::to_string(W.nalloca++); put(b,aggOff(st,{0u}),DL.getTypeStoreSize(st->getStructElementType(0)),r,1,true); put(b,aggOff(st,{1u}),1,fromBdd(ov),1,true); return one(ptrV(b,0)); }
      // integer intrinsics become hash-consed atoms (smax, ctpop, ...)
      if(CB.getType()->isIntegerTy()){ vector<GV> as; for(unsigned i=0;i<CB.arg_size();i++) as.push_back(live(arg(i))); GV acc=as[0];
        if(id==Intrinsic::smax||id==Intrinsic::smin||id==Intrinsic::umax||id==Intrinsic::umin){ auto pr=id==Intrinsic::smax?CmpInst::ICMP_SGT:id==Intrinsic::smin?CmpInst::ICMP_SLT:id==Intrinsic::umax?CmpInst::ICMP_UGT:CmpInst::ICMP_ULT; GV r; for(auto&x:as[0]) for(auto&y:as[1]){ int g=B.AND(x.first,y.first); if(!g) continue; int t=icmp(pr,x.second,y.second); pushG(r,B.AND(g,t),x.second); pushG(r,B.AND(g,B.NOT(t)),y.second); } return r; }
        if(id==Intrinsic::abs){ GV r; for(auto&x:as[0]){ if(x.second.k!=KInt){ pushG(r,x.first,x.second); continue; } int t=icmp(CmpInst::ICMP_SLT,x.second,intV(Poly(),x.second.w)); pushG(r,B.AND(x.first,t),intV(add(Poly(),x.second.num,-1),x.second.w)); pushG(r,B.AND(x.first,B.NOT(t)),x.second); } return r; }
        if(as.size()==1) return map1(acc,[&](const Val&a){ Z ci; if(a.k==KInt&&isCst(a.num,ci)&&id==Intrinsic::ctpop) return intV(cst(APInt(CB.getType()->getIntegerBitWidth(),(uint64_t)(int64_t)ci,true).popcount()),CB.getType()->getIntegerBitWidth()); return atomOf(CB.getType(),n.str()+"{"+show(a)+"}"); }); return map2(as[0],as[1],[&](const Val&a,const Val&b){ Z ci,di; unsigned w=CB.getType()->getIntegerBitWidth(); if(a.k==KInt&&isCst(a.num,ci)&&w<=64){ APInt p(w,(uint64_t)(int64_t)ci,true); if(id==Intrinsic::ctlz) return intV(cst(p.countl_zero()),w); if(id==Intrinsic::cttz) return intV(cst(p.countr_zero()),w); if(b.k==KInt&&isCst(b.num,di)){ APInt q(w,(uint64_t)(int64_t)di,true); switch(id){ case Intrinsic::uadd_sat: return intV(cst((Z)p.uadd_sat(q).getSExtValue()),w); case Intrinsic::usub_sat: return intV(cst((Z)p.usub_sat(q).getSExtValue()),w); default: break; } } } string x=show(a),y=show(b); return atomOf(CB.getType(),n.str()+"{"+x+","+y+(as.size()>2?","+show(as[2][0].second):"")+"}"); }); }
      undecided("intrinsic "+n.str());
    }
    if(fn->isDeclaration()&&CB.getType()->isVoidTy()&&(n.starts_with("_ZNSt11logic_errorC")||n.starts_with("_ZNSt13runtime_errorC")||n.starts_with("_ZNSt11logic_errorD")||n.starts_with("_ZNSt12out_of_rangeD")||n.starts_with("_ZNSt16invalid_argumentD"))) return one(Val()); // an exception object: what matters is the throw that follows
    if(fn->doesNotReturn()) undecided("a call that does not return is reachable: "+n.str());
    // other pure functions: uninterpreted, hash-consed by name and argument numbers
    if(fn->doesNotAccessMemory()&&!CB.getType()->isVoidTy()){ GV acc=one(boolV(1)); vector<pair<int,string>> alts{{1,n.str()}}; for(unsigned i=0;i<CB.arg_size();i++){ GV g=arg(i); vector<pair<int,string>> nx; for(auto&a:alts) for(auto&x:g){ int q=B.AND(a.first,x.first); if(q) nx.push_back({q,a.second+","+show(x.second)}); } alts=nx; if(alts.size()>256) undecided("too many alternatives"); } GV r; for(auto&a:alts) pushG(r,a.first,atomOf(CB.getType(),"call{"+a.second+"}")); return r; }
    if(!fn->isDeclaration()&&!fn->isVarArg()){ if(++W.depth>60) undecided("call depth exceeded at "+n.str()); FA sub(*fn,*this); unsigned i=0; for(auto&a:fn->args()){ GV g=live(arg(i++)); if(a.hasByValAttr()){ GV t=one(ptrV("alloca"+std::to_string(W.nalloca++),0)); xfer(one(intV(cst((Z)(int64_t)(uint64_t)DL.getTypeAllocSize(a.getParamByValType())),64)),t,g,false,0); g=t; } sub.val[&a]=g; } sub.mem=std::move(mem); sub.cur=cur; sub.run(); --W.depth; mem=std::move(sub.mem); cur=sub.retGuard; return sub.ret; }
    undecided("call to "+n.str());
  }
  // zero-extended values remember what they came from, so that taking a wider value apart again gives back the pieces
  static map<int,pair<Poly,unsigned>>& zextOf(){ static map<int,pair<Poly,unsigned>> m; return m; }
  static Poly zextP(const Val&v){ Z k; if(isCst(v.num,k)) return cst(k<0?k+((Z)1<<v.w):k); int a=A.get("zext64{"+::show(v)+"}"); zextOf()[a]={v.num,v.w}; return atomP(a); }
  static Poly low(const Poly&p,unsigned w){ Poly r; for(auto&kv:modw(p,w).t){ if(kv.first.size()==1&&kv.first[0].second==1){ auto it=zextOf().find(kv.first[0].first); if(it!=zextOf().end()&&it->second.second>=w){ r=add(r,mul(it->second.first,cst(kv.second))); continue; } } Poly m; m.t[kv.first]=kv.second; r=add(r,m); } return r; }
  static Val truncV(const Val&a,unsigned w){ return intV(low(a.num,w),w); }
  // a narrower store into (or behind the start of) a wider stored integer leaves the other bytes as they were
  static Val piece(const Val&v,unsigned skip,unsigned w){ Z c; if(v.k!=KInt) return Val(); if(isCst(v.num,c)) return intV(cst((Z)(int64_t)((uint64_t)(int64_t)c>>skip)),w); if(!skip) return truncV(v,w);
    { Poly hi,lo; for(auto&kv:v.num.t) if(kv.second%((Z)1<<skip)==0) hi.t[kv.first]=kv.second/((Z)1<<skip); else lo.t[kv.first]=kv.second; bool small=isCst(lo,c)&&c>=0; if(!small&&lo.t.size()==1&&lo.t.begin()->second==1&&lo.t.begin()->first.size()==1&&lo.t.begin()->first[0].second==1){ auto it=zextOf().find(lo.t.begin()->first[0].first); small=it!=zextOf().end()&&it->second.second<=skip; } if(small) return intV(low(hi,w),w); }
    return intV(atomP(A.get("bits"+std::to_string(skip)+"{"+::show(v)+"}")),w); }
  void split(const string&base,int64_t at){ for(int64_t o=at-7;o<at;o++){ auto it=mem.find({base,o}); if(it==mem.end()) continue; unsigned w=0; for(auto&x:it->second) if(x.second.k==KInt) w=std::max(w,x.second.w); int64_t len=w/8; if(o+len<=at) continue; GV old=it->second; // under the alternatives that end before `at`, what is stored there (if anything) stays
      GV tail,head; auto nx=mem.find({base,at}); for(auto&x:old){ bool wide=x.second.k==KInt&&(int64_t)x.second.w/8>at-o; if(wide){ pushG(head,x.first,piece(x.second,0,8*(at-o))); pushG(tail,x.first,piece(x.second,8*(at-o),x.second.w-8*(at-o))); } else { pushG(head,x.first,x.second); if(nx!=mem.end()) for(auto&y:nx->second){ int g=B.AND(x.first,y.first); if(g) pushG(tail,g,y.second); } } }
      mem[{base,o}]=head; mem[{base,at}]=tail; } }
  // write v at base+off when g holds (always, if sure)
  void put(const string&base,int64_t off,int64_t sz,const GV&v,int g,bool sure){ split(base,off); split(base,off+sz); for(auto it=mem.upper_bound({base,off});it!=mem.end()&&it->first.first==base&&it->first.second<off+sz;){ if(sure){ it=mem.erase(it); continue; } int64_t d=it->first.second-off; GV r; for(auto&y:it->second) pushG(r,B.AND(B.NOT(g),y.first),y.second); for(auto&y:v) pushG(r,B.AND(g,y.first),y.second.k==KInt&&(int64_t)y.second.w>8*d?piece(y.second,8*d,y.second.w-8*d):Val()); it->second=r; ++it; }
    if(sure){ mem[{base,off}]=v; return; } auto&slot=mem[{base,off}]; GV r; for(auto&y:slot) pushG(r,B.AND(B.NOT(g),y.first),y.second); for(auto&y:v) pushG(r,B.AND(g,y.first),y.second); slot=r; }
  void clobber(const Val&p,int64_t L){ for(auto it=mem.begin();it!=mem.end();){ if(it->first.first==p.base&&it->first.second>=p.off&&it->first.second<p.off+L) it=mem.erase(it); else ++it; } }
  // constants stored in read-only globals
  // a function-local static that the module only loads from keeps its initial value: nothing but that function can name it
  map<const GlobalVariable*,bool> onlyReadMemo;
  bool onlyRead(const GlobalVariable*g){ if(!g->getName().starts_with("_ZZ")) return false; auto it=onlyReadMemo.find(g); if(it!=onlyReadMemo.end()) return it->second;
    std::set<const Value*> seen; vector<const Value*> w{g}; bool ok=true; while(ok&&!w.empty()){ auto*v=w.back(); w.pop_back(); if(!seen.insert(v).second) continue;
      for(auto&use:v->uses()){ auto*u=use.getUser(); if(isa<LoadInst>(u)||isa<ICmpInst>(u)) continue; if(isa<GEPOperator>(u)||isa<PHINode>(u)||isa<SelectInst>(u)){ w.push_back(u); continue; }
        if(auto*cb=dyn_cast<CallBase>(u)) if(cb->isArgOperand(&use)) if(auto*cf=cb->getCalledFunction()) if(!cf->isDeclaration()&&!cf->isVarArg()){ w.push_back(cf->getArg(cb->getArgOperandNo(&use))); continue; }
        ok=false; } }
    return onlyReadMemo[g]=ok; }
  const Constant*constGlobal(const string&base){ if(base.empty()||base[0]!='@') return nullptr; auto*g=F.getParent()->getNamedGlobal(base.substr(1)); return g&&g->hasDefinitiveInitializer()&&(g->isConstant()||onlyRead(g))?g->getInitializer():nullptr; }
  bool constLoad(const string&base,int64_t off,Type*t,GV&out){ auto*c=constGlobal(base); if(!c||off<0) return false; auto*r=ConstantFoldLoadFromConst(const_cast<Constant*>(c),t,APInt(64,off),DL); if(!r||!(isa<ConstantInt>(r)||isa<ConstantFP>(r)||isa<ConstantPointerNull>(r)||isa<GlobalVariable>(r)||isa<Function>(r))) return false; out=get(r); return true; }
  void leaves(Type*t,int64_t off,vector<pair<int64_t,Type*>>&out){ if(auto*a=dyn_cast<ArrayType>(t)){ int64_t z=DL.getTypeAllocSize(a->getElementType()); for(uint64_t i=0;i<a->getNumElements();i++) leaves(a->getElementType(),off+i*z,out); } else if(auto*q=dyn_cast<StructType>(t)){ auto*L=DL.getStructLayout(q); for(unsigned i=0;i<q->getNumElements();i++) leaves(q->getElementType(i),off+L->getElementOffset(i),out); } else out.push_back({off,t}); }
  static std::map<string,Val>&ptrOf(){ static std::map<string,Val> m; return m; } // integers that were made from pointers
  static Val ptrInt(const Val&a){ if(a.base=="null"||a.base=="int") return intV(cst(a.off),64); Val r=intV(add(atomP(A.get("addr{"+a.base+"}")),cst(a.off)),64); ptrOf()[show(r)]=a; return r; }
  GV loadAt(const Val&p,Type*t){ if(p.k!=KPtr) undecided("load through "+show(p)); auto it=mem.find({p.base,p.off});
    if(t->isPointerTy()&&(it!=mem.end()||p.base.rfind("alloca",0)==0||p.base.rfind("heap",0)==0)){ bool part=it==mem.end(); GV g; if(!part){ g=it->second; for(auto&x:g) part|=x.second.k==KInt&&x.second.w<64; } if(part){ GV r; for(auto&x:g) if(x.second.k!=KInt) pushG(r,x.first,x.second); int rest=1; for(auto&x:r) rest=B.AND(rest,B.NOT(x.first)); for(auto&x:loadInt(p.base,p.off,64)) pushG(r,B.AND(rest,x.first),x.second); g=r; } Z c; for(auto&x:g) if(x.second.k==KInt){ auto po=ptrOf().find(show(x.second)); if(po!=ptrOf().end()){ x.second=po->second; continue; } if(!isCst(x.second.num,c)) undecided("integer used as a pointer: "+show(x.second).substr(0,80)); x.second=c==0?ptrV("null",0):ptrV("int",(int64_t)c); } return g; }
    if(it!=mem.end()&&!t->isIntegerTy()) return it->second;
    bool local=p.base.rfind("alloca",0)==0||p.base.rfind("heap",0)==0;
    if(t->isIntegerTy()&&t->getIntegerBitWidth()<=64&&(it!=mem.end()||local)) return loadInt(p.base,p.off,std::max(8u,t->getIntegerBitWidth()),t->getIntegerBitWidth()==1);
    if(local) return one(Val()); GV cg; if(constLoad(p.base,p.off,t,cg)) return cg;
    if(p.base.rfind("@_ZGV",0)==0&&t->isIntegerTy()) return t->isIntegerTy(1)?fromBdd(0):one(intV(cst(0),t->getIntegerBitWidth())); /* guard of a function-local static: not yet initialised when the analysis starts */ return one(atomOf(t,"*("+p.base+"+"+std::to_string(p.off)+")")); }
  // an integer read from memory: the low part of a wider stored one, a middle part of one that starts earlier, or several put together
  GV loadInt(const string&base,int64_t off,unsigned w,bool bit=false){ auto it=mem.find({base,off}); GV r;
    if(it==mem.end()){ for(int b=1;b<8;b++){ auto q=mem.find({base,off-b}); if(q==mem.end()) continue; bool cov=false; for(auto&x:q->second) cov|=x.second.k==KInt&&(int)x.second.w>8*b; if(!cov) continue; for(auto&x:q->second) if(x.second.k==KInt&&(int)x.second.w>8*b){ unsigned have=x.second.w-8*b; if(have>=w) pushG(r,x.first,piece(x.second,8*b,w)); else { Val a=piece(x.second,8*b,have); for(auto&y:loadInt(base,off+have/8,w-have)) pushG(r,B.AND(x.first,y.first),join(a,y.second)); } } else pushG(r,x.first,Val()); return r; } return one(Val()); }
    for(auto&x:it->second){ const Val&v=x.second; if(v.k==KPtr&&w==64) pushG(r,x.first,ptrInt(v)); else if(v.k!=KInt) pushG(r,x.first,v); else if(v.w==w) pushG(r,x.first,v); else if(v.w>w) pushG(r,x.first,truncV(v,w)); else if(v.w%8) undecided("partial load at "+base); else { auto hi=loadInt(base,off+v.w/8,w-v.w); for(auto&y:hi) pushG(r,B.AND(x.first,y.first),join(v,y.second)); } }
    return r; }
  static Val join(const Val&a,const Val&b){ if(a.k!=KInt||b.k!=KInt) return Val(); return intV(add(zextP(a),mul(zextP(b),cst((Z)1<<a.w))),a.w+b.w); }
  void run(){
    if(!caller) nFuncs++;
    if(!caller) for(auto&a:F.args()) val[&a]=one(atomOf(a.getType(),"arg"+std::to_string(a.getArgNo())));
    // Order: topological, each loop contiguous.  A loop is iterated as long as its back edge has a satisfiable guard
    // (trip counts that depend on unknown data never settle and end in "undecided").
    static map<Function*,pair<vector<const BasicBlock*>,map<const BasicBlock*,int>>> cache; auto&ce=cache[&F]; if(ce.first.empty()) {
    DominatorTree DT(F); LoopInfo LI(DT); ReversePostOrderTraversal<Function*> RPO(&F);
    std::function<void(Loop*)> place=[&](Loop*L){ // emit the nodes of L (or of the function) in topological order, subloops collapsed
      vector<BasicBlock*> top; std::set<const void*> seen; vector<pair<const void*,BasicBlock*>> post;
      auto node=[&](BasicBlock*b)->const void*{ Loop*l=LI.getLoopFor(b); if(l==L) return b; while(l&&l->getParentLoop()!=L) l=l->getParentLoop(); return l?(const void*)l:nullptr; };
      std::function<void(BasicBlock*)> dfs=[&](BasicBlock*b){ if(L&&!L->contains(b)) return; const void*n=node(b); if(!n||!seen.insert(n).second) return; vector<BasicBlock*> ss; if(n==b) for(auto*x:successors(b)) ss.push_back(x); else { SmallVector<BasicBlock*,8> ex; ((Loop*)n)->getExitBlocks(ex); ss.assign(ex.begin(),ex.end()); } for(auto*x:ss) if(!(L&&x==L->getHeader())) dfs(x); post.push_back({n,b}); };
      dfs(L?L->getHeader():&F.getEntryBlock());
      for(auto it=post.rbegin();it!=post.rend();++it){ if(it->first==it->second){ idx[it->second]=order.size(); order.push_back(it->second); } else place((Loop*)it->first); } };
    place(nullptr); for(auto*bb:RPO) if(!idx.count(bb)){ idx[bb]=order.size(); order.push_back(bb); }
    ce.first=order; ce.second=idx; } else { order=ce.first; idx=ce.second; }
    pending[idx[&F.getEntryBlock()]].push_back(In{cur,{},std::make_shared<Mem>(std::move(mem))}); unsigned&nalloca=W.nalloca; vector<pair<int,std::shared_ptr<const Mem>>> rets;
    while(!pending.empty()){
      auto pit=pending.begin(); const BasicBlock*bb=order[pit->first]; vector<In> ins=std::move(pit->second); pending.erase(pit); if(!--W.budget) undecided("iteration budget exceeded in "+F.getName().str());
      int r=0; for(auto&i:ins) r=B.OR(r,i.guard); r=simp(r); unsigned vis=visits[bb]++; if(vis>(r==1?1000000u:30000u)) undecided("loop with an unknown number of iterations in "+F.getName().str()+" at block "+bb->getName().str()+" guard "+B.show(r));
      memNow.reset(); if(ins.size()==1){ if(ins[0].mem.use_count()==1) mem=std::move(const_cast<Mem&>(*ins[0].mem)); else mem=*ins[0].mem; } else { Mem m; vector<pair<int,const Mem*>> ps; for(auto&i:ins) ps.push_back({i.guard,i.mem.get()}); mergeMem(m,ps); mem=std::move(m); }
      reach[bb]=r; if(!r) continue; cur=r;
      auto commit=[&](const Instruction*I,GV&&nv,const GV*old){ if(!old||r==1){ val[I]=std::move(nv); return; } GV g; if(I->getType()->isIntegerTy(1)){ int a=0,b=0; for(auto&x:nv) a=B.OR(a,B.AND(x.first,x.second.b)); for(auto&x:*old) b=B.OR(b,B.AND(x.first,x.second.b)); g=fromBdd(B.OR(B.AND(r,a),B.AND(B.NOT(r),b))); } else { for(auto&x:nv) pushG(g,B.AND(r,x.first),x.second); for(auto&x:*old) pushG(g,B.AND(B.NOT(r),x.first),x.second); } val[I]=std::move(g); };
      { size_t k=0; for(auto&ph:bb->phis()){ GV g; if(ins.size()==1) g=ins[0].phis[k]; else for(auto&i:ins) for(auto&x:i.phis[k]) pushG(g,B.AND(i.guard,x.first),x.second); k++; nValues++;
        if(ph.getType()->isIntegerTy(1)){ int b=0; for(auto&x:g){ if(x.second.k==KUndef) b=B.OR(b,B.AND(x.first,boolAtom("UNINIT"))); else b=B.OR(b,B.AND(x.first,x.second.b)); } g=fromBdd(b); }
        GV old; bool ho=false; if(vis){ auto it=val.find(&ph); if(it!=val.end()){ old=it->second; ho=true; } } commit(&ph,std::move(g),ho?&old:nullptr); } }
      for(auto&I:*bb){ if(isa<PHINode>(I)) continue; GV old; bool ho=false; if(vis&&!I.getType()->isVoidTy()){ auto it=val.find(&I); if(it!=val.end()){ old=it->second; ho=true; } } step(const_cast<Instruction&>(I),nalloca); r=cur; if(!r) break; if(ho){ GV nv=val[&I]; commit(&I,std::move(nv),&old); } }
      if(!r) continue;
      memNow=std::make_shared<Mem>(std::move(mem));
      auto*T=bb->getTerminator();
      if(auto*br=dyn_cast<BranchInst>(T)){ if(br->isUnconditional()) addEdge(bb,br->getSuccessor(0),r); else { int c=toBdd(get(br->getCondition())); addEdge(bb,br->getSuccessor(0),B.AND(r,c)); addEdge(bb,br->getSuccessor(1),B.AND(r,B.NOT(c))); } }
      else if(auto*sw=dyn_cast<SwitchInst>(T)){ GV g=get(sw->getCondition()); int rest=r; for(auto&cs:sw->cases()){ GV c=get(cs.getCaseValue()); int e=toBdd(map2(g,c,[&](const Val&a,const Val&b){ return boolV(intEq(a,b)); })); addEdge(bb,cs.getCaseSuccessor(),B.AND(rest,e)); rest=B.AND(rest,B.NOT(e)); } addEdge(bb,sw->getDefaultDest(),rest); }
      else if(auto*iv=dyn_cast<InvokeInst>(T)){ addEdge(bb,iv->getNormalDest(),r); }
      else if(auto*rt=dyn_cast<ReturnInst>(T)){ if(!caller){ topRet=simp(B.OR(topRet,r)); std::set<string> live_; vector<string> todo_; auto mark_=[&](const GV&v){ for(auto&x:v) if(x.second.k==KPtr&&x.second.base.rfind("heap",0)==0&&live_.insert(x.second.base).second) todo_.push_back(x.second.base); }; for(auto it=memNow->lower_bound({"@",INT64_MIN});it!=memNow->end()&&it->first.first[0]=='@';++it) mark_(it->second); while(!todo_.empty()){ string b_=todo_.back(); todo_.pop_back(); for(auto it=memNow->lower_bound({b_,INT64_MIN});it!=memNow->end()&&it->first.first==b_;++it) mark_(it->second); } /* owned by objects of static storage duration */
        for(auto&h:heap) if(!live_.count(h.first)&&simp(B.AND(r,B.AND(h.second.alloc,B.NOT(h.second.freed))))) bad(h.first+" ("+std::to_string(h.second.size)+" bytes) is never freed"); } else { rets.push_back({r,memNow}); retGuard=simp(B.OR(retGuard,r)); if(rt->getReturnValue()) for(auto&x:get(rt->getReturnValue())) pushG(ret,B.AND(r,x.first),x.second); } } else if(isa<UnreachableInst>(T)){ // no well-defined continuation: the compiler proved undefined behaviour, or the call before it does not return
        string w="undefined behaviour"; if(auto*pc=dyn_cast_or_null<CallBase>(T->getPrevNode())) if(pc->doesNotReturn()) w=pc->getCalledFunction()?"call of "+pc->getCalledFunction()->getName().str():"call that does not return"; if(r==1||feasible(r)) bad(w+" is reachable in "+F.getName().str()+(r==1?"":" when "+B.show(r).substr(0,200))); }
      else if(isa<ResumeInst>(T)){} else undecided("terminator");
    }
    if(caller){ if(rets.size()==1) mem=*rets[0].second; else { Mem m; vector<pair<int,const Mem*>> ps; for(auto&x:rets) ps.push_back({x.first,x.second.get()}); mergeMem(m,ps); mem=std::move(m); } if(F.getReturnType()->isIntegerTy(1)){ int b=0; for(auto&x:ret) b=B.OR(b,B.AND(x.first,x.second.k==KUndef?boolAtom("UNINIT"):x.second.b)); ret=fromBdd(b); } }
    else obls.push_back({"<memory>",F.getName().str(),memBad.empty()?"ok":"FAIL",memBad});
  }
  std::shared_ptr<const Mem> memNow;
  void addEdge(const BasicBlock*a,const BasicBlock*b,int c){ c=simp(c); if(!c) return; In in; in.guard=c; in.mem=memNow; for(auto&ph:b->phis()){ GV g; for(auto&x:get(ph.getIncomingValueForBlock(a))){ if(B.AND(c,x.first)) g.push_back(x); } in.phis.push_back(g); } pending[idx[b]].push_back(std::move(in)); }
  int intEq(const Val&a,const Val&b){ if(a.k==KPtr||b.k==KPtr){ if(a.k==KPtr&&b.k==KPtr){ if(a.base==b.base) return a.off==b.off; auto id=[&](const Val&v){ return v.base.rfind("alloca",0)==0||v.base.rfind("heap",0)==0||v.base[0]=='@'||v.base=="null"; }; if(id(a)&&id(b)) return 0; return boolAtom("["+show(a)+" == "+show(b)+"]"); } if(a.k==KUndef||b.k==KUndef) return boolAtom("UNINIT"); undecided("pointer comparison "+show(a)+" "+show(b)); }
    if(a.k==KUndef||b.k==KUndef) return boolAtom("UNINIT"); Poly d=modw(add(a.num,b.num,-1),a.w); Z c; if(isCst(d,c)) return c==0; Poly e=modw(add(b.num,a.num,-1),a.w); string s=show(d),t=show(e); return boolAtom("[i"+std::to_string(a.w)+":"+std::min(s,t)+" == 0]"); }
  static Val bool2int(const Val&v,unsigned w,bool sx){ return v; }
  void step(Instruction&I,unsigned&nalloca){
    nValues++;
    if(I.isDebugOrPseudoInst()) return;
    if(auto*al=dyn_cast<AllocaInst>(&I)){ val[&I]=one(ptrV("alloca"+std::to_string(nalloca++),0)); return; }
    if(auto*g=dyn_cast<GetElementPtrInst>(&I)){ APInt off(64,0); if(g->accumulateConstantOffset(DL,off)){ GV b=get(g->getPointerOperand()); for(auto&p:b) p.second.off+=off.getSExtValue(); val[&I]=b; return; }
      // variable index: resolve when the index number is constant under each guard
      MapVector<Value*,APInt> VO; APInt c(64,0); if(!g->collectOffset(DL,64,VO,c)) undecided("gep"); GV b=live(get(g->getPointerOperand())); for(auto&p:b) p.second.off+=c.getSExtValue(); for(auto&kv:VO){ b=map2(b,live(get(kv.first)),[&](const Val&p,const Val&i){ Z ci; if(i.k!=KInt||!isCst(i.num,ci)) { string q; raw_string_ostream os(q); I.print(os); undecided("variable index "+show(i)+" in"+os.str()); }; Val q=p; q.off+=(int64_t)ci*kv.second.getSExtValue(); return q; }); } val[&I]=b; return; }
    if(auto*l=dyn_cast<LoadInst>(&I)){ GV p=get(l->getPointerOperand()); GV r; for(auto&x:live(p)) access(x.second,DL.getTypeStoreSize(l->getType()),B.AND(cur,x.first),"read"); p=live(p); for(auto&x:p){ int miss=x.first; for(auto&y:loadAt(x.second,l->getType())){ pushG(r,B.AND(x.first,y.first),y.second); miss=B.AND(miss,B.NOT(y.first)); } if(simp(B.AND(cur,miss))){ bool local=x.second.k==KPtr&&(x.second.base.rfind("alloca",0)==0||x.second.base.rfind("heap",0)==0); pushG(r,B.AND(cur,miss),local?Val():atomOf(l->getType(),"*("+x.second.base+"+"+std::to_string(x.second.off)+")")); } } if(getenv("GVN_UNINIT")) for(auto&y:r) if(y.second.k==KUndef&&simp(B.AND(cur,y.first))){ string q; raw_string_ostream os(q); I.print(os); for(auto&x:p) q+=" | "+B.show(x.first)+" "+show(x.second); fprintf(stderr,"uninitialised load in %s:%s under %s\n",F.getName().str().c_str(),q.c_str(),B.show(B.AND(cur,y.first)).c_str()); }
      val[&I]=r; return; }
    if(auto*s=dyn_cast<StoreInst>(&I)){ GV p=get(s->getPointerOperand()),v=get(s->getValueOperand()); p=live(p); for(auto&x:p) access(x.second,DL.getTypeStoreSize(s->getValueOperand()->getType()),B.AND(cur,x.first),"write"); int64_t sz=DL.getTypeStoreSize(s->getValueOperand()->getType()); bool sure=p.size()==1&&p[0].second.k==KPtr; for(auto&x:p) put(x.second.base,x.second.off,sz,v,x.first,sure); return; }
    if(auto*s=dyn_cast<SelectInst>(&I)){ int c=toBdd(get(s->getCondition())); GV a=get(s->getTrueValue()),b=get(s->getFalseValue()); GV r; for(auto&x:a) pushG(r,B.AND(c,x.first),x.second); for(auto&x:b) pushG(r,B.AND(B.NOT(c),x.first),x.second); if(I.getType()->isIntegerTy(1)){ int q=0; for(auto&x:r) q=B.OR(q,B.AND(x.first,x.second.k==KUndef?boolAtom("UNINIT"):x.second.b)); val[&I]=fromBdd(q);} else val[&I]=r; return; }
    if(isa<FreezeInst>(&I)){ val[&I]=get(I.getOperand(0)); return; }
    if(auto*c=dyn_cast<CmpInst>(&I)){ auto*ic=dyn_cast<ICmpInst>(c); if(!ic){ Type*t=c->getOperand(0)->getType(); if(!t->isFloatingPointTy()) undecided("fcmp"); auto pr=c->getPredicate(); val[&I]=fromBdd(toBdd(map2(live(get(c->getOperand(0))),live(get(c->getOperand(1))),[&](const Val&a,const Val&b){ return boolV(FCmpInst::compare(fpOf(a,t),fpOf(b,t),pr)?1:0); }))); return; } auto pr=ic->getPredicate(); val[&I]=fromBdd(toBdd(map2(live(get(ic->getOperand(0))),live(get(ic->getOperand(1))),[&](const Val&a,const Val&b){ return boolV(icmp(pr,a,b)); }))); return; }
    if(auto*CB=dyn_cast<CallBase>(&I)){
      Function*fn=CB->getCalledFunction(); if(fn&&(fn->getName()=="vf_eq"||fn->getName()=="vf_ieq"||fn->getName()=="vf_iff"||fn->getName()=="vf_true")){ sink(*CB); return; }
      if(fn&&fn->getName()=="vf_assume"){ axioms=B.AND(axioms,B.OR(B.NOT(cur),toBdd(get(CB->getArgOperand(0))))); return; }
      if(fn&&fn->getName()=="vf_may_throw"){ int c=toBdd(get(CB->getArgOperand(0))); mayThrow=B.OR(B.AND(cur,c),B.AND(B.NOT(cur),mayThrow)); return; }
      // throwing (or aborting) ends the path; it is an error unless the witness declared that it must happen here
      if(fn&&(fn->isDeclaration()||fn->getName().contains("__throw_"))&&fn->doesNotReturn()&&!fn->isIntrinsic()){ int b=B.AND(cur,B.NOT(mayThrow)); if(b&&(b==1||feasible(b))) bad("call of "+fn->getName().str()+" is reachable in "+F.getName().str()+(b==1?"":" when "+B.show(b).substr(0,200))); cur=0; return; }
      val[&I]=call(*CB); return; }
    if(I.getOpcode()==Instruction::FNeg&&(I.getType()->isFloatTy()||I.getType()->isDoubleTy())){ Type*t=I.getType(); val[&I]=map1(live(get(I.getOperand(0))),[&](const Val&a)->Val{ APFloat x=fpOf(a,t); x.changeSign(); return fpV(x); }); return; }
    if(auto*bo=dyn_cast<BinaryOperator>(&I)){ auto op=bo->getOpcode(); if(I.getType()->isIntegerTy(1)){ int a=toBdd(get(bo->getOperand(0))),b=toBdd(get(bo->getOperand(1))); val[&I]=fromBdd(op==Instruction::And?B.AND(a,b):op==Instruction::Or?B.OR(a,b):op==Instruction::Xor?B.XOR(a,b):(undecided("i1 op"),0)); return; }
      if(I.getType()->isFloatTy()||I.getType()->isDoubleTy()){ Type*t=I.getType(); val[&I]=map2(live(get(bo->getOperand(0))),live(get(bo->getOperand(1))),[&](const Val&a,const Val&b){ APFloat x=fpOf(a,t),y=fpOf(b,t); auto rm=APFloat::rmNearestTiesToEven; switch(op){ case Instruction::FAdd: x.add(y,rm); break; case Instruction::FSub: x.subtract(y,rm); break; case Instruction::FMul: x.multiply(y,rm); break; case Instruction::FDiv: x.divide(y,rm); break; default: undecided("floating-point operation"); } return fpV(x); }); return; }
      if(!I.getType()->isIntegerTy()) undecided("non-integer arithmetic"); unsigned w=I.getType()->getIntegerBitWidth(); if(w>64) undecided("wide int");
      val[&I]=map2(get(bo->getOperand(0)),get(bo->getOperand(1)),[&](const Val&a,const Val&b){ if(a.k!=KInt||b.k!=KInt){ if(a.k==KUndef||b.k==KUndef) return Val(); undecided("int op on "+show(a)+" , "+show(b)); } Z c,d; bool ca=isCst(a.num,c),cb=isCst(b.num,d);
        switch(op){ case Instruction::Add: return intV(add(a.num,b.num),w); case Instruction::Sub: return intV(add(a.num,b.num,-1),w); case Instruction::Mul: if(ca&&cb&&w<=64) return intV(cst((Z)(APInt(w,(uint64_t)(int64_t)c,true)*APInt(w,(uint64_t)(int64_t)d,true)).getSExtValue()),w); return intV(mul(a.num,b.num),w);
          case Instruction::Shl: if(ca&&cb&&d>=0&&d<w&&w<=64) return intV(cst((Z)APInt(w,(uint64_t)(int64_t)c,true).shl((unsigned)d).getSExtValue()),w); if(cb&&d>=0&&d<w) return intV(mul(a.num,cst((Z)1<<(int)d)),w); break;
          case Instruction::LShr: case Instruction::AShr: case Instruction::And: case Instruction::Or: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: if(ca&&cb){ APInt x(w,(uint64_t)(int64_t)c,true),y(w,(uint64_t)(int64_t)d,true),r(w,0); bool ok=true; switch(op){ case Instruction::LShr: ok=y.ult(w); if(ok) r=x.lshr(y); break; case Instruction::AShr: ok=y.ult(w); if(ok) r=x.ashr(y); break; case Instruction::And: r=x&y; break; case Instruction::Or: r=x|y; break; default: ok=!y.isZero(); if(ok) r=op==Instruction::UDiv?x.udiv(y):op==Instruction::SDiv?x.sdiv(y):op==Instruction::URem?x.urem(y):x.srem(y); } if(ok) return intV(cst((Z)r.getSExtValue()),w); } break;
          case Instruction::Xor: if(ca&&cb) return intV(cst((Z)(int64_t)((uint64_t)(int64_t)c^(uint64_t)(int64_t)d)),w); if(cb&&d==-1) return intV(add(cst(-1),a.num,-1),w); if(a.num==b.num) return intV(Poly(),w); break; default: break; }
        string x=show(a),y=show(b); if(bo->isCommutative()&&y<x) std::swap(x,y); (void)ca; return atomOf(I.getType(),string(bo->getOpcodeName())+"{"+x+","+y+"}"); }); return; }
    if(auto*ca=dyn_cast<CastInst>(&I)){ Type*t=I.getType(); if(isa<ZExtInst>(ca)||isa<SExtInst>(ca)){ bool sx=isa<SExtInst>(ca); if(ca->getSrcTy()->isIntegerTy(1)){ int c=toBdd(get(ca->getOperand(0))); GV r; pushG(r,c,intV(cst(sx?-1:1),t->getIntegerBitWidth())); pushG(r,B.NOT(c),intV(Poly(),t->getIntegerBitWidth())); val[&I]=r; return; }
        val[&I]=map1(get(ca->getOperand(0)),[&](const Val&a){ Z c; if(a.k==KInt&&isCst(a.num,c)){ if(!sx&&c<0) c+=(Z)1<<a.w; return intV(cst(c),t->getIntegerBitWidth()); } if(!sx&&a.k==KInt&&t->getIntegerBitWidth()<=64) return intV(zextP(a),t->getIntegerBitWidth()); return atomOf(t,string(sx?"sext":"zext")+std::to_string(t->getIntegerBitWidth())+"{"+show(a)+"}"); }); return; }
      if(isa<TruncInst>(ca)){ if(t->isIntegerTy(1)){ val[&I]=map1(get(ca->getOperand(0)),[&](const Val&a){ Z c; if(a.k==KUndef) return boolV(boolAtom("UNINIT")); if(isCst(a.num,c)) return boolV((c&1)!=0); return boolV(boolAtom("bit0{"+show(a)+"}")); }); int q=0; for(auto&x:val[&I]) q=B.OR(q,B.AND(x.first,x.second.b)); val[&I]=fromBdd(q); return; }
        val[&I]=map1(get(ca->getOperand(0)),[&](const Val&a){ if(a.k!=KInt) return a; unsigned w=t->getIntegerBitWidth(); return truncV(a,w); }); return; }
      if(isa<PtrToIntInst>(ca)){ val[&I]=map1(live(get(ca->getOperand(0))),[&](const Val&a){ if(a.k!=KPtr) return a; return ptrInt(a); }); return; }
      if(isa<IntToPtrInst>(ca)){ val[&I]=map1(live(get(ca->getOperand(0))),[&](const Val&a){ Z c; if(a.k==KPtr) return a; if(a.k==KInt&&isCst(a.num,c)&&c==0) return ptrV("null",0); auto it=ptrOf().find(show(a)); if(it!=ptrOf().end()) return it->second; undecided("pointer made of an integer"); return Val(); }); return; }
      Type*st=ca->getSrcTy(); if(isa<UIToFPInst>(ca)||isa<SIToFPInst>(ca)){ bool sg=isa<SIToFPInst>(ca); if((t->isFloatTy()||t->isDoubleTy())&&!st->isIntegerTy(1)){ val[&I]=map1(live(get(ca->getOperand(0))),[&](const Val&a){ Z c; if(a.k!=KInt||!isCst(a.num,c)) undecided("conversion of an unknown integer to floating point"); APFloat f(t->getFltSemantics()); f.convertFromAPInt(APInt(st->getIntegerBitWidth(),(uint64_t)(int64_t)c,true),sg,APFloat::rmNearestTiesToEven); return fpV(f); }); return; } }
      if(isa<FPToUIInst>(ca)||isa<FPToSIInst>(ca)){ val[&I]=map1(live(get(ca->getOperand(0))),[&](const Val&a){ APSInt r(t->getIntegerBitWidth(),isa<FPToUIInst>(ca)); bool ex; fpOf(a,st).convertToInteger(r,APFloat::rmTowardZero,&ex); return intV(cst((Z)r.getSExtValue()),t->getIntegerBitWidth()); }); return; }
      if((isa<FPExtInst>(ca)||isa<FPTruncInst>(ca))&&(t->isFloatTy()||t->isDoubleTy())){ val[&I]=map1(live(get(ca->getOperand(0))),[&](const Val&a){ bool lost; APFloat f=fpOf(a,st); f.convert(t->getFltSemantics(),APFloat::rmNearestTiesToEven,&lost); return fpV(f); }); return; }
      { string s; raw_string_ostream os(s); I.print(os); undecided("cast"+os.str()); } }
    // aggregates in registers: each one is an immutable object of its own
    if(auto*iv=dyn_cast<InsertValueInst>(&I)){ string b="alloca"+std::to_string(nalloca++); Type*at=I.getType(); const Value*src=iv->getAggregateOperand(); if(!isa<UndefValue>(src)) xfer(one(intV(cst((Z)(int64_t)(uint64_t)DL.getTypeAllocSize(at)),64)),one(ptrV(b,0)),live(get(src)),false,0); put(b,aggOff(at,iv->getIndices()),DL.getTypeStoreSize(iv->getInsertedValueOperand()->getType()),get(iv->getInsertedValueOperand()),1,true); val[&I]=one(ptrV(b,0)); return; }
    if(auto*ev=dyn_cast<ExtractValueInst>(&I)){ int64_t off=aggOff(ev->getAggregateOperand()->getType(),ev->getIndices()); GV r; for(auto&x:live(get(ev->getAggregateOperand()))){ Val p=x.second; if(p.k!=KPtr) undecided("aggregate value"); p.off+=off; for(auto&y:loadAt(p,I.getType())) pushG(r,B.AND(x.first,y.first),y.second); } if(I.getType()->isIntegerTy(1)){ int q=0; for(auto&x:r) q=B.OR(q,B.AND(x.first,x.second.k==KUndef?boolAtom("UNINIT"):x.second.b)); r=fromBdd(q); } val[&I]=r; return; }
    if(I.isTerminator()||isa<FenceInst>(&I)) return;
    string s; raw_string_ostream os(s); I.print(os); undecided("instruction "+os.str());
  }
  int icmp(CmpInst::Predicate p,const Val&a,const Val&b){ switch(p){ case CmpInst::ICMP_EQ: return eqI(a,b); case CmpInst::ICMP_NE: return B.NOT(eqI(a,b)); default: break; }
    if(a.k==KPtr&&b.k==KPtr&&a.base==b.base) switch(p){ case CmpInst::ICMP_ULT:return a.off<b.off; case CmpInst::ICMP_ULE:return a.off<=b.off; case CmpInst::ICMP_UGT:return a.off>b.off; case CmpInst::ICMP_UGE:return a.off>=b.off; default: break; }
    if(a.k!=KInt||b.k!=KInt) { if(a.k==KUndef||b.k==KUndef) return boolAtom("UNINIT");
      if((a.k==KPtr||a.k==KInt)&&(b.k==KPtr||b.k==KInt)){ auto real=[](const Val&v){ return v.k==KPtr&&v.base!="null"&&v.base!="int"; }; Val x=a.k==KPtr?ptrInt(a):a,y=b.k==KPtr?ptrInt(b):b; Z c; // an object lies above every null-based address
        bool small1=!real(a)&&isCst(x.num,c)&&c>=0&&c<4096,small2=!real(b)&&isCst(y.num,c)&&c>=0&&c<4096; if(real(a)&&small2) return p==CmpInst::ICMP_UGT||p==CmpInst::ICMP_UGE; if(small1&&real(b)) return p==CmpInst::ICMP_ULT||p==CmpInst::ICMP_ULE; x.w=y.w=64; return icmp(p,x,y); }
      undecided("icmp on "+show(a)+" , "+show(b)); }
    Z c,d; if(isCst(a.num,c)&&isCst(b.num,d)){ auto u=[&](Z x){ return x<0?x+((Z)1<<a.w):x; }; switch(p){ case CmpInst::ICMP_SLT:return c<d; case CmpInst::ICMP_SLE:return c<=d; case CmpInst::ICMP_SGT:return c>d; case CmpInst::ICMP_SGE:return c>=d; case CmpInst::ICMP_ULT:return u(c)<u(d); case CmpInst::ICMP_ULE:return u(c)<=u(d); case CmpInst::ICMP_UGT:return u(c)>u(d); case CmpInst::ICMP_UGE:return u(c)>=u(d); default:break; } }
    bool uns=CmpInst::isUnsigned(p); auto lt=[&](const Val&x,const Val&y){ // x<y, with a shared equality atom
        Z k; int E=intEq(x,y); if(E==1) return 0; 
        // canonical: constant on the right;  c < x  ==  !(x < c+1)
        if(isCst(x.num,k)) { Z lim=uns?-1:(((Z)1<<(a.w-1))-1); if(k==lim) return 0; return B.NOT(boolAtom(string(uns?"[u ":"[s ")+show(y)+" < "+zs(k+1)+"]")); }
        if(isCst(y.num,k)) { if(uns&&k==0) return 0; return boolAtom(string(uns?"[u ":"[s ")+show(x)+" < "+zs(k)+"]"); }
        string sx=show(x),sy=show(y); bool sw=!(sx<sy); int L=boolAtom(string(uns?"[u ":"[s ")+(sw?sy:sx)+" < "+(sw?sx:sy)+"]"); orderAtoms(sw?add(y.num,x.num,-1):add(x.num,y.num,-1),E,L,uns?2:1); return B.AND(B.NOT(E),sw?B.NOT(L):L); };
    switch(p){ case CmpInst::ICMP_SLT: case CmpInst::ICMP_ULT: return lt(a,b); case CmpInst::ICMP_SGT: case CmpInst::ICMP_UGT: return lt(b,a); case CmpInst::ICMP_SLE: case CmpInst::ICMP_ULE: return B.NOT(lt(b,a)); case CmpInst::ICMP_SGE: case CmpInst::ICMP_UGE: return B.NOT(lt(a,b)); default: undecided("predicate"); } }
  int eqI(const Val&a,const Val&b){ if(a.k==KRing||b.k==KRing) undecided("machine comparison of ring handles"); return intEq(a,b); }
  string strOf(const Value*v){ StringRef s; const GlobalVariable*gv=dyn_cast<GlobalVariable>(v->stripPointerCasts()); if(gv&&gv->hasInitializer()) if(auto*cd=dyn_cast<ConstantDataArray>(gv->getInitializer())) if(cd->isString()) return cd->getAsCString().str(); return "?"; }
  void sink(CallBase&CB){
    StringRef n=CB.getCalledFunction()->getName(); Obl o; o.name=strOf(CB.getArgOperand(0)); o.fn=F.getName().str();
    try{
    if(n=="vf_true"){ int c=toBdd(get(CB.getArgOperand(1))); int bad=B.AND(cur,B.NOT(c)); if(bad&&!feasible(bad)) bad=0; o.status=bad?"FAIL":"ok"; if(bad) o.detail="not implied when "+B.witness(bad); }
    else if(n=="vf_iff"){ int a=toBdd(get(CB.getArgOperand(1))),b=toBdd(get(CB.getArgOperand(2))); int bad=B.AND(cur,B.XOR(a,b)); if(bad&&!feasible(bad)) bad=0; o.status=bad?"FAIL":"ok"; if(bad) o.detail="differ when "+B.witness(bad); }
    else { GV a=get(CB.getArgOperand(1)),b=get(CB.getArgOperand(2)); o.status="ok"; { int ca=0,cb=0; for(auto&x:a) ca=B.OR(ca,x.first); for(auto&x:b) cb=B.OR(cb,x.first); int m=simp(B.AND(cur,B.NOT(B.AND(ca,cb)))); if(m&&feasible(m)){ o.status="UNDECIDED"; o.detail="value not known when "+B.witness(m); obls.push_back(o); return; } } for(auto&x:a){ for(auto&y:b){ int g=simp(B.AND(cur,B.AND(x.first,y.first))); if(!g) continue; Val p=x.second,q=y.second; if(n=="vf_eq"){ p=asRing(p); q=asRing(q); } if(p.k==KUndef||q.k==KUndef||show(p).find("UNINIT")!=string::npos||show(q).find("UNINIT")!=string::npos){ if(!feasible(g)) continue; o.status="FAIL"; o.detail="uninitialised value"; break; } if(!eqUnder(g,p,q)){ o.status="FAIL"; o.detail="got "+show(p)+"  expected "+show(q)+(g==1?"":"  when "+(failPath.empty()?B.witness(g):failPath)); if(o.detail.size()>600) o.detail=o.detail.substr(0,600)+"..."; break; } } if(o.status!="ok") break; } }
    } catch(Undecided&u){ o.status="UNDECIDED"; o.detail=u.why; }
    obls.push_back(o);
  }
};
static string esc(const string&s){ string r; for(char c:s){ if(c=='"'||c=='\\'){r+='\\';r+=c;} else if((unsigned char)c<32) r+=' '; else r+=c; } return r; }

// Every witness function is analysed in its own process (fresh tables, own processor and memory limit), several at a time.
static void emit(int fd){ string r=std::to_string(nFuncs)+" "+std::to_string(nValues)+"\n"; for(auto&o:obls) r+="{\"name\":\""+esc(o.name)+"\",\"fn\":\""+esc(o.fn)+"\",\"status\":\""+o.status+"\",\"detail\":\""+esc(o.detail)+"\"}\n"; size_t k=0; while(k<r.size()){ ssize_t n=write(fd,r.data()+k,r.size()-k); if(n<=0) break; k+=n; } }
int main(int argc,char**argv){
  LLVMContext C; SMDiagnostic E; auto M=parseIRFile(argv[1],E,C); if(!M){ E.print("gvn",errs()); return 3; }
  string pat; int cpu=120,jobs=8; for(int i=2;i<argc;i++){ string a=argv[i]; if(a.rfind("--fn=",0)==0) pat=a.substr(5); else if(a.rfind("--cpu=",0)==0) cpu=atoi(a.c_str()+6); else if(a.rfind("--jobs=",0)==0) jobs=atoi(a.c_str()+7); }
  vector<Function*> fs; Regex re(pat); for(auto&F:*M) if(!F.isDeclaration()&&F.getName().starts_with("w_")&&(pat.empty()||re.match(F.getName()))) fs.push_back(&F);
  vector<FILE*> out(fs.size()); vector<int> st(fs.size(),-1); map<pid_t,size_t> run; size_t next=0; vector<double> secs(fs.size());
  auto reap=[&]{ int s; struct rusage ru; pid_t p=wait4(-1,&s,0,&ru); auto it=run.find(p); if(it!=run.end()){ st[it->second]=s; secs[it->second]=ru.ru_utime.tv_sec+ru.ru_utime.tv_usec*1e-6; run.erase(it); } };
  while(next<fs.size()||!run.empty()){
    if(next<fs.size()&&(int)run.size()<jobs){ out[next]=tmpfile(); fflush(stdout); pid_t p=fork(); if(p==0){ struct rlimit rl{(rlim_t)cpu,(rlim_t)cpu+2}; setrlimit(RLIMIT_CPU,&rl); rl.rlim_cur=rl.rlim_max=(rlim_t)6<<30; setrlimit(RLIMIT_AS,&rl);
        Function&F=*fs[next]; try { FA fa(F); fa.run(); if(!topRet||!feasible(topRet)) obls.push_back({"<end>",F.getName().str(),"UNDECIDED","the end of the witness is never reached: what it asserts may be vacuous"}); } catch(Undecided&u){ obls.push_back({"<function>",F.getName().str(),"UNDECIDED",u.why}); } catch(std::bad_alloc&){ obls.clear(); obls.push_back({"<function>",F.getName().str(),"UNDECIDED","memory limit"}); } emit(fileno(out[next])); _exit(0); }
      run[p]=next++; continue; }
    reap(); }
  string body; unsigned n=0; for(size_t i=0;i<fs.size();i++){ rewind(out[i]); char*line=nullptr; size_t cap=0; bool got=false; unsigned a=0,b=0; while(getline(&line,&cap,out[i])>0){ string l=line; while(!l.empty()&&l.back()=='\n') l.pop_back(); if(!got){ got=true; sscanf(l.c_str(),"%u %u",&a,&b); nFuncs+=a; nValues+=b; continue; } body+=(n++?",\n":"")+l; } free(line); fclose(out[i]);
    if(getenv("GVN_TIMES")) fprintf(stderr,"%8.2f s %s\n",secs[i],fs[i]->getName().str().c_str());
    if(!got||st[i]!=0) body+=string(n++?",\n":"")+"{\"name\":\"<function>\",\"fn\":\""+fs[i]->getName().str()+"\",\"status\":\"UNDECIDED\",\"detail\":\"the analysis "+(WIFSIGNALED(st[i])&&(WTERMSIG(st[i])==SIGXCPU||WTERMSIG(st[i])==SIGKILL)?string("exceeded its limit of "+std::to_string(cpu)+" processor seconds"):string("ended abnormally"))+"\"}"; }
  printf("{\"functions\":%u,\"values\":%u,\"obligations\":[\n%s\n]}\n",nFuncs,nValues,body.c_str()); return 0;
}
