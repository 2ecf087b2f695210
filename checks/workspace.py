"""P11/P12: the workspace free list, and its synchronisation within a team."""
from pairs import *
from team import ENV
from race import Races

PRE = ENV + r'''
#include "ekat_pack.hpp"
#include "ekat_pack_kokkos.hpp"
#include "ekat_math_utils.hpp"
// an element whose assignment leaves nothing behind: the debug fill of a block
// disappears, the bookkeeping stays
struct Q { double x[1]; Q& operator=(const Q&){ return *this; } };
namespace ekat {
template<> struct ScalarTraits<Q> { using value_type=Q; using scalar_type=double; static constexpr bool is_simd=false, is_floating_point=true, specialized=true; };
template<class T> std::enable_if_t<std::is_same<T,Q>::value,Q> invalid(){ return Q(); }
}
#include "ekat_workspace.hpp"
#define DATA T* RS data, int* RS ns, unsigned short ws, unsigned short nws, unsigned short size, unsigned short res, unsigned short mu
namespace unit_test { struct UnitWrap {
  template<class T> using W = ekat::WorkspaceManager<T,VDev>;
  enum { pad=32 };
  template<class T> static void fill(W<T>& w, T* data, int* ns, int nws, int size, int res, int mu){
    w.m_max_ws_idx=nws; w.m_reserve=res; w.m_size=size; w.m_total=size+res; w.m_max_used=mu; w.is_initialized=true;
    w.m_next_slot=VView1<int>(ns,(u)nws*pad); w.m_data=VView2<T>(data,nws,(u)(size+res)*mu); }
#ifndef NDEBUG
  template<class T> static void fill(W<T>& w, T* data, int* ns, int nws, int size, int res, int mu, int* nu, int* hw, bool* ac, char* cn, char* an, int* ct){
    fill<T>(w,data,ns,nws,size,res,mu); w.m_num_used=VView1<int>(nu,nws); w.m_high_water=VView1<int>(hw,nws); w.m_active=VView2<bool>(ac,nws,mu);
    w.m_curr_names=VView3<char>(cn,nws,mu,128); w.m_all_names=VView3<char>(an,nws,256,128); w.m_counts=VView3<int>(ct,nws,256,2); }
  template<class K> static void num(const K& k, int n){ k.change_num_used(n); }
  template<class S, class K, class B> static void meta(const K& k, const B& b, const char* n, bool r){ k.template change_indv_meta<S>(b,n,r); }
  template<class K> static int idx(const K& k, const char* n, bool add){ return k.get_name_idx(n,add); }
  template<class K> static int query(const K& k, int q, const char* n){ return q==0?k.get_alloc_count(n):q==1?k.get_release_count(n):k.get_num_used(); }
  template<class K, class B> static bool active(const K& k, const B& b){ return k.template is_active<typename B::value_type>(b); }
#endif
#ifndef NDEBUG
  template<class T> static void dims(const W<T>& w, u* x){ auto s=[&](const auto& v){ return v.size(); };
    x[0]=s(w.m_num_used); x[1]=s(w.m_high_water); x[2]=w.m_active.extent(0); x[3]=w.m_active.extent(1);
    auto d=[&](const auto& v, u* y){ y[0]=v.n0; y[1]=v.n1; y[2]=v.n2; }; d(w.m_curr_names,x+4); d(w.m_all_names,x+7); d(w.m_counts,x+10); }
  template<class T> static void wipe(W<T>& w){ w.reset_internals(); }
#endif
  template<class T, class S> static auto space(const W<T>& w, int t, int s){ return w.template get_space_in_slot<S>(t,s); }
  template<class T> static auto make(const W<T>& w, int ws, const VTeam& t){ return typename W<T>::Workspace(w,ws,t,""); }
  template<class T> static void meta(const W<T>& w, int a, int s){ w.init_slot_metadata(a,s); }
  template<class T> static void internals(W<T>& w, int a, int b){ w.compute_internals(a,b); }
  template<class T> static int field(const W<T>& w, int k){ return k==0?w.m_max_ws_idx:k==1?w.m_reserve:k==2?w.m_size:k==3?w.m_total:k==4?w.m_max_used:w.is_initialized; }
  template<class T> static u ext(const W<T>& w, int k){ return k==0?w.m_next_slot.size():k==1?w.m_data.extent(0):w.m_data.extent(1); }
  template<class T> static const void* ptr(const W<T>& w, int k){ return k==0?(const void*)w.m_next_slot.data():(const void*)w.m_data.data(); }
}; }
using UW = unit_test::UnitWrap;
'''

SETUP = "ekat::WorkspaceManager<T,VDev> w; UW::fill<T>(w,data,ns,nws,size,res,mu); VTeam tm{0,1,0,1}; auto k=UW::make<T>(w,ws,tm); using UV=ekat::Unmanaged<VView1<S>>; "
# the specification's own vocabulary
SPEC = ("u tot=(u)size+res, row=tot*mu; int& head=ns[32*(u)ws]; auto blk=[&](long s)->S* { return (S*)(data+ws*row+s*tot+res); }; "
        "auto md=[&](const void* b)->int* { return (int*)((T*)b-res); }; (void)md; (void)blk; (void)head; ")


def drv(T, S, psz):
    d = Drv(PRE + "namespace { using T=%s; using S=%s; }\n" % (T, S))
    P = [("T* RS", "data"), ("int* RS", "ns")] + [("unsigned short", x) for x in ("ws", "nws", "size", "res", "mu")]
    n = "(sizeof(T)==sizeof(S) ? (u)size : ((u)size*sizeof(T))/sizeof(S))"
    O = P + [("S** RS", "o")]

    def op(name, params, t, r, what, grp="list"):
        d.e(grp, name, "void", params, SETUP + t, SPEC + r, what)
    op("take", O, 'auto s=k.template take<S>("a"); o[0]=s.data();', "int s=head; o[0]=blk(s); head=md(blk(s))[1];", "take: pops the head of the free list")
    d.e("size", "size", "u", P, SETUP + 'auto s=k.template take<S>("a"); return s.size();', SPEC + "head=md(blk(head))[1]; return %s;" % n, "take: number of elements of a block")
    for N in (1, 2, 3, 5, 8):
        nm = "{%s}" % ",".join('"%c"' % (97 + i) for i in range(N))
        vs = "UV " + ",".join("v%d" % i for i in range(N)) + "; "
        ps = "{%s}" % ",".join("&v%d" % i for i in range(N))
        outs = "".join("o[%d]=v%d.data(); " % (i, i) for i in range(N))
        rel = "".join("UV v%d(b[%d],1); " % (i, i) for i in range(N))
        Q = P + [("S*const* RS", "b")]
        pop = "int c=head; " + "".join("o[%d]=blk(c); c=md(blk(c))[1]; " % i for i in range(N)) + "head=c;"
        op("many%d" % N, O, vs + "k.template take_many<%d,S>(%s,%s); " % (N, nm, ps) + outs, pop, "take_many<%d>: pops %d blocks" % (N, N))
        if S == T:
            op("refs%d" % N, O, vs + "k.take_many_refs(%s,%s); " % (nm, ",".join("v%d" % i for i in range(N))) + outs, pop, "take_many_refs of %d views: pops %d blocks" % (N, N))
        # contiguous: N consecutive slots from the head; the head becomes the successor of the last
        cont = "int c=head; " + "".join("o[%d]=blk((long)c+%d); " % (i, i) for i in range(N)) + "head=md(blk((long)c+%d))[1];" % (N - 1)
        op("cont%d" % N, O, vs + "k.template take_many_contiguous_unsafe<%d,S>(%s,%s); " % (N, nm, ps) + outs, cont, "take_many_contiguous_unsafe<%d>: takes the consecutive slots and continues with the successor of the last" % N)
        op("reset%d" % N, O, vs + "k.template take_many_and_reset<%d,S>(%s,%s); " % (N, nm, ps) + outs,
           "".join("o[%d]=blk(%d); " % (i, i) for i in range(N)) + "for(int i=%d;i<mu;++i){ int* m=(int*)(data+ws*row+i*tot); m[0]=i; m[1]=i+1; } head=%d;" % (N, N), "take_many_and_reset<%d>: takes slots 0..%d and relinks the rest" % (N, N - 1))
        op("relc%d" % N, Q, rel + "k.template release_many_contiguous<%d,S>(%s);" % (N, ps),
           "md(b[%d])[1]=head; head=md(b[0])[0];" % (N - 1), "release_many_contiguous<%d>: pushes the run, its last block linked to the old head" % N)
        op("sizem%d" % N, P + [("u* RS", "o")], vs + "k.template take_many<%d,S>(%s,%s); " % (N, nm, ps) + "".join("o[%d]=v%d.size(); " % (i, i) for i in range(N)), "int c=head; " + "".join("c=md(blk(c))[1]; " for i in range(N)) + "head=c; " + "".join("o[%d]=%s; " % (i, n) for i in range(N)), "take_many<%d>: number of elements of each block" % N, "size")
    op("macro", O + [("unsigned short", "nb")], 'auto s=k.template take_macro_block<S>("a",(int)nb+1); o[0]=s.data();', "int s=head; o[0]=blk(s); head=md(blk((long)s+nb))[1];", "take_macro_block: takes n consecutive slots and continues with the successor of the last")
    op("rel", P + [("S* RS", "b")], "UV v(b,1); k.release(v);", "int* m=md(b); m[1]=head; head=m[0];", "release: pushes the block")
    op("relm", P + [("S* RS", "b"), ("unsigned short", "nb")], "UV v(b,1); k.template release_macro_block<S>(v,(int)nb+1);",
       "int f=md(b)[0]; int old=head; head=f; for(int i=0;i<(int)nb+1;++i){ int* m=(int*)(data+ws*row+((long)f+i)*tot); m[0]=f+i; m[1]=i==(int)nb?old:f+i+1; }", "release_macro_block: pushes the run, its last slot linked to the old head")
    d.alt("relm", SPEC + "int f=md(b)[0]; int old=head; head=f; for(int i=0;i<(int)nb+1;++i){ int* m=(int*)(data+ws*row+((long)f+i)*tot); m[0]=f+i; m[1]=f+i+1; } ((int*)(data+ws*row+((long)f+nb)*tot))[1]=old;")
    op("reset", P, "k.reset();", "for(int i=0;i<mu;++i){ int* m=(int*)(data+ws*row+i*tot); m[0]=i; m[1]=i+1; } head=0;", "reset: every slot free again, in order")
    op("init", P + [("unsigned short", "lr")], "w(VTeam{0,1,lr,nws});", "for(int i=0;i<mu;++i){ int* m=(int*)(data+lr*row+i*tot); m[0]=i; m[1]=i+1; }", "operator(): every slot of this workspace linked to the next")
    return d


# ---- debug bookkeeping -----------------------------------------------------------
DP = [("Q* RS", "data"), ("int* RS", "ns"), ("int* RS", "nu"), ("int* RS", "hw"), ("bool* RS", "ac"), ("char* RS", "cn"), ("char* RS", "an"), ("int* RS", "ct")] + [("unsigned short", x) for x in ("ws", "nws", "size", "res", "mu")]
DSET = "ekat::WorkspaceManager<Q,VDev> w; UW::fill<Q>(w,data,ns,nws,size,res,mu,nu,hw,ac,cn,an,ct); VTeam tm{0,1,0,1}; auto k=UW::make<Q>(w,ws,tm); using T=Q; using S=Q; using UV=ekat::Unmanaged<VView1<S>>; "
DSPEC = ("using T=Q; using S=Q; u tot=(u)size+res, row=tot*mu; int& head=ns[32*(u)ws]; auto blk=[&](long s)->S* { return (S*)(data+ws*row+s*tot+res); }; "
         "auto md=[&](const void* b)->int* { return (int*)((T*)b-res); }; (void)md; (void)blk; (void)head; auto die=[](){ std::abort(); }; (void)die; "
         "auto num=[&](int n){ int c=nu[ws]+n; nu[ws]=c; if(c>mu) die(); if(c<0) die(); if(c>hw[ws]) hw[ws]=c; }; (void)num; ")


def drv_dbg():
    """(the bookkeeping helpers, the operations in terms of them)"""
    d, h = Drv(PRE), Drv(PRE)
    K = [("const char* RS", "nm")]
    B = [("Q* RS", "b")]
    UVB = "UV v(b,1); "
    d.e("debug", "num", "void", DP + [("short", "n")], DSET + "UW::num(k,n);", DSPEC + "num(n);", "change_num_used: counts, keeps the high-water mark, and rejects exactly a count outside [0,max]")
    # the search for a name, written in several ways: matching one is enough
    forms = [
        ("char* nr=an+(u)ws*256*128; int f=-1; for(int i=0;i<256;++i){ char* od=nr+i*128; if(strcmp(od,nm)==0){ f=i; break; } %s } if(f==-1) die();",
         'else if(strcmp(od,"")==0){ strcpy(od,nm); f=i; break; }'),
        ("char* nr=an+(u)ws*256*128; int f=-1; for(int i=0;i<256;++i){ if(strcmp(nr+i*128,nm)==0){ f=i; break; } %s } if(f==-1) die();",
         'else if(strcmp(nr+i*128,"")==0){ strcpy(nr+i*128,nm); f=i; break; }'),
        ("char* nr=an+(u)ws*256*128; int f=[&]{ for(int i=0;i<256;++i){ if(strcmp(nr+i*128,nm)==0) return i; %s } return -1; }(); if(f==-1) die();",
         'if(strcmp(nr+i*128,"")==0){ strcpy(nr+i*128,nm); return i; }'),
        ("char* nr=an+(u)ws*256*128; int f=[&]{ for(int i=0;i<256;++i){ if(strcmp(nr+i*128,nm)==0) return i; %s } die(); return -1; }();",
         'if(strcmp(nr+i*128,"")==0){ strcpy(nr+i*128,nm); return i; }'),
        ("char* nr=an+(u)ws*256*128; int f=-1; for(int i=0;i<256 && f==-1;++i){ if(strcmp(nr+i*128,nm)==0) f=i; %s } if(f==-1) die();",
         'else if(strcmp(nr+i*128,"")==0){ strcpy(nr+i*128,nm); f=i; }'),
        ("char* nr=an+(u)ws*256*128; int i=0; while(i<256 && strcmp(nr+i*128,nm)!=0 %s) ++i; int f=i; if(i==256) die();", None)]

    def each(name, ret, params, t, r, what):
        first = True
        for f, add in forms:
            for k in ("@FIND", "@ADD"):
                if k in r:
                    if k == "@ADD" and add is None:
                        continue
                    body = r.replace(k, f % ("" if k == "@FIND" else add))
                    if first:
                        d.e("debug", name, ret, params, DSET + t, DSPEC + body, what)
                    else:
                        d.alt(name, DSPEC + body)
                    first = False
    each("find", "int", DP + K, "return UW::idx(k,nm,false);", "@FIND return f;", "get_name_idx: index of a known name, rejecting an unknown one")
    each("add", "int", DP + K, "return UW::idx(k,nm,true);", "@ADD return f;", "get_name_idx(add): index of the name, entered in the first free place")
    each("cnt0", "int", DP + K, "return UW::query(k,0,nm);", "@FIND return ct[((u)ws*256+f)*2];", "get_alloc_count")
    each("cnt1", "int", DP + K, "return UW::query(k,1,nm);", "@FIND return ct[((u)ws*256+f)*2+1];", "get_release_count")
    d.e("debug", "used", "int", DP, DSET + 'return UW::query(k,2,"");', DSPEC + "return nu[ws];", "get_num_used")
    d.e("debug", "active", "bool", DP + B, DSET + UVB + "return UW::active(k,v);", DSPEC + "return ac[(u)ws*mu+md(b)[0]];", "is_active: the flag of the block's slot")
    d.e("debug", "name", "const char*", DP + B, DSET + UVB + "return k.get_name(v);", DSPEC + "return cn+((u)ws*mu+md(b)[0])*128;", "get_name: the name of the block's slot")
    each("enter", "void", DP + B + K, UVB + "UW::meta<Q>(k,v,nm,false);", "int sl=md(b)[0]; if(!(strlen(nm)<128)) die(); if(!(strlen(nm)>0)) die(); bool& act=ac[(u)ws*mu+sl]; if(act) die(); strcpy(cn+((u)ws*mu+sl)*128,nm); "
         "@ADD ct[((u)ws*256+f)*2]+=1; act=true;", "taking a block: checks and records its name, counts it and marks it active")
    each("leave", "void", DP + B, UVB + 'UW::meta<Q>(k,v,"",true);', "int sl=md(b)[0]; bool& act=ac[(u)ws*mu+sl]; if(!act) die(); const char* nm=cn+((u)ws*mu+sl)*128; @FIND ct[((u)ws*256+f)*2+1]+=1; act=false;",
         "releasing a block: rejects one that is not active, counts it and marks it inactive")
    # the operations, in terms of the two above
    OP = DP + [("Q** RS", "o")]
    call_in = "UW::meta<Q>(k,UV(%s,1),%s,false);"
    call_out = 'UW::meta<Q>(k,UV(%s,1),"",true);'

    def op(name, params, t, r, what):
        h.e("debugop", name, "void", params, DSET + t, DSET + DSPEC.replace("using T=Q; using S=Q; ", "") + r, what)
    op("dtake", OP, 'auto s=k.take<S>("a"); o[0]=s.data();', 'UW::num(k,1); S* b=blk(head); head=md(b)[1]; ' + call_in % ("b", '"a"') + " o[0]=b;", "take: one more in use, its name recorded")
    op("drel", DP + B, UVB + "k.release(v);", "UW::num(k,-1); " + call_out % "b" + "md(b)[1]=head; head=md(b)[0];", "release: one fewer in use")
    V2 = 'UV v0,v1; Kokkos::Array<const char*,2> nm{"a","b"}; Kokkos::Array<UV*,2> q{&v0,&v1}; '
    OUT = "o[0]=v0.data(); o[1]=v1.data();"
    IN2 = call_in % ("b0", '"a"') + call_in % ("b1", '"b"') + " o[0]=b0; o[1]=b1;"
    op("dmany", OP, V2 + "k.take_many<2,Q>(nm,q); " + OUT, "UW::num(k,2); S* b0=blk(head); S* b1=blk(md(b0)[1]); head=md(b1)[1]; " + IN2, "take_many: two more in use, their names recorded")
    cont = "if(md(blk(head))[1]!=head+1) die(); "
    op("dcont", OP, V2 + "k.take_many_contiguous_unsafe<2,Q>(nm,q); " + OUT, "UW::num(k,2); " + cont + "S* b0=blk(head); S* b1=blk((long)head+1); head=md(b1)[1]; " + IN2, "take_many_contiguous_unsafe: rejects slots that are not contiguous, two more in use, their names recorded")
    op("dmacro", OP + [("unsigned short", "n")], 'auto s=k.take_macro_block<Q>("a",(int)n+1); o[0]=s.data();',
       'int h=head; UW::num(k,(int)n+1); for(int i=0;i<(int)n;++i){ int* m=(int*)(data+ws*row+((long)h+i)*tot); if(m[1]!=h+i+1) die(); } S* b=blk(h); head=md(blk((long)h+n))[1]; ' + call_in % ("b", '"a"') + " o[0]=b;",
       "take_macro_block: rejects slots that are not contiguous, n more in use, the name recorded")
    RQ = DP + [("Q*const* RS", "b")]
    op("drelc", RQ, "UV v0(b[0],1),v1(b[1],1); k.release_many_contiguous<2,Q>({&v0,&v1});",
       "UW::num(k,-2); if(md(b[0])[1]!=md(b[0])[0]+1) die(); md(b[1])[1]=head; head=md(b[0])[0]; " + call_out % "b[0]" + call_out % "b[1]", "release_many_contiguous: rejects blocks that are not contiguous, two fewer in use")
    op("drelm", DP + B + [("unsigned short", "n")], UVB + "k.release_macro_block<Q>(v,(int)n+1);",
       "UW::num(k,-((int)n+1)); int f=md(b)[0]; int old=head; head=f; " + call_out % "b" + "for(int i=0;i<(int)n+1;++i){ int* m=(int*)(data+ws*row+((long)f+i)*tot); m[0]=f+i; m[1]=i==(int)n?old:f+i+1; }", "release_macro_block: n fewer in use")
    drop = "for(int a=0;a<mu;++a) if(ac[(u)ws*mu+a]){ " + call_out % "blk(a)" + " } "
    op("dreset", DP, "k.reset();", "UW::num(k,-nu[ws]); head=0; for(int i=0;i<mu;++i){ int* m=(int*)(data+ws*row+i*tot); m[0]=i; m[1]=i+1; } " + drop, "reset: none in use, every active block counted as released")
    op("dtmr", OP, V2 + "k.take_many_and_reset<2,Q>(nm,q); " + OUT, "S* b0=blk(0); S* b1=blk(1); UW::num(k,2-nu[ws]); for(int i=2;i<mu;++i){ int* m=(int*)(data+ws*row+i*tot); m[0]=i; m[1]=i+1; } head=2; " + drop + IN2, "take_many_and_reset: two in use, every active block counted as released, then the two names recorded")
    h.e("debugop", "fill", "void", [("double* RS", "data"), ("int* RS", "ns")] + [("unsigned short", x) for x in ("ws", "nws", "size", "res", "mu", "s")] + [("double** RS", "o")],
        "ekat::WorkspaceManager<double,VDev> w; UW::fill<double>(w,data,ns,nws,size,res,mu); auto b=UW::space<double,double>(w,ws,s); o[0]=b.data();",
        "u tot=(u)size+res; double* b=data+ws*(tot*mu)+s*tot+res; for(long i=0;i<size;++i) b[i]=__builtin_nan(\"\"); o[0]=b;", "a block handed out is filled with invalid values")
    return d, h


# ---- construction ------------------------------------------------------------------
def drv_setup(T, dbg):
    """what a freshly set up manager holds: the value of each field after setup,
    and the free list of every workspace"""
    d = Drv(PRE + "namespace { using T=%s; }\n" % T)
    P = [("unsigned short", x) for x in ("size", "mu", "ls", "ts")]
    pol = "VPolicy pol((int)ls+1,(int)ts+1); "
    ref = "int res=(8+sizeof(T)-1)/sizeof(T); int nws=x_concurrency()/((int)ts+1); if(nws>(int)ls+1) nws=(int)ls+1; u tot=(u)size+res; (void)res; (void)nws; (void)tot; "
    D = [("T* RS", "data")]
    F = "".join("o[%d]=UW::field(w,%d); " % (k, k) for k in range(6)) + "".join("x[%d]=UW::ext(w,%d); " % (k, k) for k in range(3)) + "q[0]=UW::ptr(w,0); q[1]=UW::ptr(w,1);"
    FR = "o[0]=nws; o[1]=res; o[2]=size; o[3]=res+size; o[4]=mu; o[5]=1; x[0]=32*(u)nws; x[1]=nws; x[2]=tot*mu; q[0]=ns; q[1]=data;"
    alloc = "int* ns=(int*)x_alloc(0,32*(u)nws*4); "
    own = "T* data=(T*)x_alloc(1,(u)nws*(tot*mu)*sizeof(T)); "
    link = "for(int l=0;l<nws;++l) for(int i=0;i<mu;++i){ int* m=(int*)(data+l*(tot*mu)+i*tot); m[0]=i; m[1]=i+1; } "
    O = [("int* RS", "o"), ("u* RS", "x"), ("const void** RS", "q")]
    W = "ekat::WorkspaceManager<T,VDev> w"
    for nm, c, what in (("setup", W + "; w.setup(size,mu,pol); ", "setup"), ("ctor", W + "(size,mu,pol); ", "constructor")):
        d.e("setup", nm, "void", P + O, pol + c + F, ref + alloc + own + link + FR, what + ": dimensions, memory for every workspace, list heads zeroed, every slot linked to the next")
    for nm, c, what in (("setupd", W + "; w.setup(data,size,mu,pol); ", "setup(data)"), ("ctord", W + "(data,size,mu,pol); ", "constructor(data)")):
        d.e("setup", nm, "void", D + P + O, pol + c + F, ref + alloc + link + FR, what + ": dimensions, the caller's memory used, list heads zeroed, every slot linked to the next")
    d.e("setup", "init", "int", [], W + "; return UW::field(w,5);", "return 0;", "a manager does not count as initialised before setup")
    d.e("setup", "bytes", "int", P, pol + "return ekat::WorkspaceManager<T,VDev>::get_total_bytes_needed(size,mu,pol);", ref + "return (int)((u)nws*tot*mu*sizeof(T));", "get_total_bytes_needed: the bytes setup uses")
    Q = [("T* RS", "data"), ("int* RS", "ns")] + [("unsigned short", x) for x in ("nws", "size", "res", "mu")]
    d.e("setup", "reset", "void", Q, "ekat::WorkspaceManager<T,VDev> w; UW::fill<T>(w,data,ns,nws,size,res,mu); w.reset_internals();",
        "u tot=(u)size+res; for(u i=0;i<32*(u)nws;++i) ns[i]=0; for(int l=0;l<nws;++l) for(int i=0;i<mu;++i){ int* m=(int*)(data+l*(tot*mu)+i*tot); m[0]=i; m[1]=i+1; }", "reset_internals: every slot of every workspace free again, in order")
    return d


DIMS = ("int nws=x_concurrency()/((int)ts+1); if(nws>(int)ls+1) nws=(int)ls+1; if(nws<=0) std::abort(); T* data=(T*)x_alloc(1,(u)nws*((size+1)*mu)*sizeof(T)); for(int l=0;l<nws;++l) for(int i=0;i<mu;++i){ int* m=(int*)(data+l*((size+1)*mu)+i*(size+1)); m[0]=i; m[1]=i+1; }"
        " u e[]={(u)nws,(u)nws,(u)nws,mu,(u)nws,mu,128,(u)nws,256,128,(u)nws,256,2}; for(int i=0;i<13;++i) x[i]=e[i];")


# ---- threads -----------------------------------------------------------------------
# (declarations, the operation) of each operation, on views no other operation uses
TAKE2 = "Kokkos::Array<const char*,2> n@{\"a\",\"b\"}; UV p@,q@; Kokkos::Array<UV*,2> a@{&p@,&q@}; "
BACK2 = "UV p@((S*)b@,1), q@((S*)c@,1); Kokkos::Array<UV*,2> a@{&p@,&q@}; "
OPS = dict(take='auto s@=k.template take<S>("a"); o[@]=s@.data();', many=TAKE2 + "k.template take_many<2,S>(n@,a@); o[@]=p@.data();", refs=TAKE2 + "k.take_many_refs(n@,p@,q@); o[@]=p@.data();",
           cont=TAKE2 + "k.template take_many_contiguous_unsafe<2,S>(n@,a@); o[@]=q@.data();", afresh=TAKE2 + "k.template take_many_and_reset<2,S>(n@,a@); o[@]=q@.data();",
           macro='auto s@=k.template take_macro_block<S>("a",(int)m@+1); o[@]=s@.data();', release="UV v@((S*)b@,1); k.release(v@);", back=BACK2 + "k.template release_many_contiguous<2,S>(a@);",
           relm="UV v@((S*)b@,1); k.template release_macro_block<S>(v@,(int)m@+1);", reset="k.reset();")


def threads(rep, T):
    """every operation followed by every other, as one thread of a team does them"""
    d = PRE + "namespace { using T=%s; using S=T; using UV=ekat::Unmanaged<VView1<S>>; }\n" % T
    names = {}
    for x in OPS:
        for y in OPS:
            n = "%s_%s" % (x, y)
            names[n] = "%s, then %s" % (x, y)
            d += ('extern "C" void t_%s(T* RS data, int* RS ns, unsigned short ws, unsigned short nws, unsigned short size, unsigned short res, unsigned short mu, int r, int s, S** RS o, S* b0, S* c0, S* b1, S* c1, unsigned short m0, unsigned short m1){ '
                  "ekat::WorkspaceManager<T,VDev> w; UW::fill<T>(w,data,ns,nws,size,res,mu); VTeam tm{r,s,0,1}; tm.shared[0]=data; tm.shared[1]=ns; auto k=UW::make<T>(w,ws,tm); %s %s }\n") % (n, OPS[x].replace("@", "0"), OPS[y].replace("@", "1"))
    J = emit("ws_race", d, flags(True, kk4=True, defs=["VSYNC"]), opaque=["^x_"], pure=["^x_mine$", "^x_concurrency"], extra=["--no-pre"])
    fns = {f["name"]: f for f in J["functions"]}
    bar = lambda n: n.startswith("x_barrier")
    for n, what in names.items():
        f = fns["t_" + n]
        try:
            with budget(ENTRY):
                R = Races(Fn(Graph(), f, pure=["^x_mine$", "^x_concurrency"], opts=dict(transparent_trunc=True, nowrap=True, nonneg=(2, 3, 4, 5, 6, 14, 15))), 7, lambda c: c == "x_mine", bar, (0, 1))
                bad = R.find()
        except (Blowup, Bounded, Budget) as e:
            rep.undecided.append("%s (%s)" % (n, type(e).__name__))
            continue
        for loc, txt in bad[:2]:
            rep.bad("threads", repoloc(loc), "%s [%s]: %s" % (what, T, txt), key="threads|%s" % n)
        if not bad:
            rep.ok("threads", len(R.bars) + R.pairs)
            rep.sample(pair=what, barriers=len(R.bars), accesses=R.pairs)


def check(pid, tier):
    rep = Report(pid, tier, "value-graph equality of every operation with the free-list specification")
    jobs = [("double", "double"), ("double", "float"), ("ekat::Pack<double,4>", "ekat::Pack<double,4>"), ("float", "float"), ("float", "double")]
    if tier == "thorough":
        jobs += [("double", "int"), ("int", "int"), ("ekat::Pack<double,4>", "double"), ("ekat::Pack<float,16>", "ekat::Pack<float,16>")]

    def one(j):
        sub = Report(pid, tier, "")
        run_pairs(sub, "ws_%d" % jobs.index(j), drv(*j, 0), flags(True, kk4=True), note=" [%s/%s]" % j, opaque=["^x_"], pure=["^x_concurrency"], sets=True, opts=dict(transparent_trunc=True, nowrap=True, ult_as_slt=True))
        return sub
    def dbg(_):
        sub = Report(pid, tier, "")
        for k, d in enumerate(drv_dbg()):
            run_pairs(sub, "wd%d" % k, d, flags(False, kk4=True), note=" [Debug]", opaque=["^x_"], pure=["^x_concurrency"], sets=True, opts=dict(transparent_trunc=True, nowrap=k == 1))
        h = Drv(PRE + "namespace { using T=double; }\n")
        h.e("debug", "dims", "void", [("unsigned short", x) for x in ("size", "mu", "ls", "ts")] + [("u* RS", "x")], "VPolicy pol((int)ls+1,(int)ts+1); ekat::WorkspaceManager<T,VDev> w; UW::dims<T>((w.setup(size,mu,pol),w),x);",
            DIMS, "setup: dimensions of the bookkeeping")
        h.alt("dims", re.sub(r"if\(nws<=0\)", "if(nws<=0 || x_concurrency()/(x_concurrency()/((int)ts+1))<=0)", DIMS))
        h.e("debug", "wipe", "void", DP, DSET + "UW::wipe(w);", DSPEC + "for(u i=0;i<(u)nws*mu;++i) ac[i]=0; for(u i=0;i<(u)nws*512;++i) ct[i]=0; for(u i=0;i<nws;++i) hw[i]=0; for(u i=0;i<nws;++i) nu[i]=0; for(u i=0;i<32*(u)nws;++i) ns[i]=0;"
            " for(int l=0;l<nws;++l) for(int i=0;i<mu;++i){ int* m=(int*)(data+l*row+i*tot); m[0]=i; m[1]=i+1; }", "reset_internals: bookkeeping as after setup")
        run_pairs(sub, "wd2", h, flags(False, kk4=True), note=" [Debug]", opaque=[r"^std::__throw", r"^std::__cxx11", r"^std::(basic_)?o", r"^operator new", r"^operator delete"], pure=["^x_concurrency", "^x_alloc"], fail=[r"^void ekat::throw_exception<"], sets=True, opts=dict(transparent_trunc=True, nowrap=True))
        return sub
    def setup(j):
        sub = Report(pid, tier, "")
        run_pairs(sub, "wp_%d" % setups.index(j), drv_setup(j, 0), flags(True, kk4=True), note=" [%s]" % j, opaque=["^x_"], pure=["^x_concurrency"], sets=True, opts=dict(transparent_trunc=True, nowrap=True, ult_as_slt=True))
        return sub
    setups = ["double", "float", "ekat::Pack<double,4>"] + (["int", "char", "ekat::Pack<float,16>"] if tier == "thorough" else [])
    for s in pmap(setup, setups):
        rep.merge(s)
    # every public operation of the manager must at least be usable
    wit = """#include "ekat_pack.hpp"
#include "ekat_workspace.hpp"
template class ekat::WorkspaceManager<double,ekat::HostDevice>;
extern "C" void t_report(const ekat::WorkspaceManager<double,ekat::HostDevice>& w){ w.report(); }
extern "C" void t_reset(ekat::WorkspaceManager<double,ekat::HostDevice>& w){ w.reset_internals(); }
"""
    for nd in (False, True):
        msg = compiles("ws_wit", wit, flags(nd, kk4=True))
        if msg:
            rep.bad("witness", "src/kokkos/ekat_workspace_impl.hpp", "the manager cannot be instantiated [%s]: %s" % ("NDEBUG" if nd else "Debug", msg), key="witness|%d" % nd)
        else:
            rep.ok("witness", 1)
    rep.merge(dbg(0))
    for T in ("double",) + (("ekat::Pack<double,4>",) if tier == "thorough" else ()):
        threads(rep, T)
    for s in pmap(one, jobs):
        rep.merge(s)
    for r, k in dict(list=250, debug=50, debugop=100, setup=200, size=30, witness=2, threads=500).items():
        rep.need(r, k)
    rep.assumptions += ["what an operation does is read off a team of one thread; the threads group shows that no access conflicts with another thread's between two barriers, in release builds, for two operations in a row (each operation that updates the list ends with a barrier)", "sizes and counts do not overflow; they are taken from 16-bit unsigned quantities",
                        "the caller keeps the precondition of contiguity where an operation states one"]
    return rep.finish("Every operation from an arbitrary state of the free list, in release and debug builds, against the list's specification; the debug search for a name is compared with several ways of writing it; every ordered pair of operations is checked for conflicting accesses between two barriers.")
