"""Driver generation for the Pack / Mask properties.

Every entry t_X calls the EKAT API; r_X is its lane-by-lane specification on
raw arrays.  Entry names are t_<group>_<op>_<T>_<N>.
"""

PRE = r'''
#include <cmath>
#include <type_traits>
#include <ostream>
#include <limits>
#include "ekat_pack.hpp"
#include "ekat_pack_math.hpp"
#include "ekat_pack_utils.hpp"
#include "ekat_where.hpp"
#include "ekat_pack_where.hpp"
#define RS __restrict
#define X extern "C"
#define FOR(n) for (int i=0;i<n;++i)
#define NEW(...) new(o) std::remove_reference_t<decltype(*o)>(__VA_ARGS__)
// scalar oracle for min/max: on equality or unordered operands the first one
template<class T> static inline T smin(T a, T b) { return b < a ? b : a; }
template<class T> static inline T smax(T a, T b) { return a < b ? b : a; }
'''


def combos(tier):
    c = [("double", 1), ("double", 2), ("double", 4), ("double", 8), ("double", 16), ("float", 1), ("float", 4), ("float", 16), ("int", 1), ("int", 4), ("int", 8)]
    if tier == "thorough":
        c += [("double", 32), ("float", 2), ("float", 8), ("float", 32), ("int", 2), ("int", 16), ("int", 32), ("long", 4), ("long", 16), ("short", 8), ("unsigned", 4)]
    return c


OPN = {"+": "add", "-": "sub", "*": "mul", "/": "div"}
CMP = {"==": "eq", "!=": "ne", ">=": "ge", "<=": "le", ">": "gt", "<": "lt"}


class D:
    def __init__(self, T, n):
        self.T, self.n = T, n
        self.o = []
        self.tag = "%s_%d" % (T, n)
        self.groups = {}

    def e(self, group, name, ret, params, tbody, rbody, what):
        """params: list of (ctype_t, ctype_r, name)"""
        nm = "%s_%s" % (name, self.tag)
        self.o.append('X %s t_%s(%s){ %s }' % (ret, nm, ", ".join("%s %s" % (a, c) for a, b, c in params), tbody))
        self.o.append('X %s r_%s(%s){ %s }' % (ret, nm, ", ".join("%s %s" % (b, c) for a, b, c in params), rbody))
        self.groups["t_" + nm] = (group, what)


def other(T):
    return {"double": "float", "float": "double", "int": "long", "long": "int", "short": "int", "unsigned": "int"}[T]


def gen(T, n):
    d = D(T, n)
    T2 = other(T)
    d.o.append("namespace {using P=ekat::Pack<%s,%d>; using Q=ekat::Pack<%s,%d>; using M=ekat::Mask<%d>; using T=%s; using T2=%s; enum{n=%d};}" % (T, n, T2, n, n, T, T2, n))
    O = ("P* RS", "T* RS", "o")
    A = ("const P* RS", "const T* RS", "a")
    B = ("const P* RS", "const T* RS", "b")
    C = ("const Q* RS", "const T2* RS", "c")
    MO = ("M* RS", "int* RS", "o")
    MA = ("const M* RS", "const int* RS", "m")
    MB = ("const M* RS", "const int* RS", "q")
    S = ("T", "T", "s")
    S2 = ("T2", "T2", "z")
    CT = "std::common_type_t<T,T2>"
    # ---- binary operators
    for op, nm in OPN.items():
        what = "operator%s" % op
        d.e("arith", nm + "_pp", "void", [O, A, B], "NEW(*a %s *b);" % op, "FOR(n) o[i]=a[i] %s b[i];" % op, what + "(Pack,Pack)")
        d.e("arith", nm + "_ps", "void", [O, A, S], "NEW(*a %s s);" % op, "FOR(n) o[i]=a[i] %s s;" % op, what + "(Pack,scalar)")
        d.e("arith", nm + "_sp", "void", [O, A, S], "NEW(s %s *a);" % op, "FOR(n) o[i]=s %s a[i];" % op, what + "(scalar,Pack)")
        O2 = ("ekat::Pack<%s,n>* RS" % CT, CT + "* RS", "o")
        d.e("arith", nm + "_pq", "void", [O2, A, C], "NEW(*a %s *c);" % op, "FOR(n) o[i]=a[i] %s c[i];" % op, what + "(Pack,Pack of another type)")
        d.e("arith", nm + "_pz", "void", [O2, A, S2], "NEW(*a %s z);" % op, "FOR(n) o[i]=a[i] %s z;" % op, what + "(Pack,scalar of another type)")
        d.e("arith", nm + "_zp", "void", [O2, A, S2], "NEW(z %s *a);" % op, "FOR(n) o[i]=z %s a[i];" % op, what + "(scalar of another type,Pack)")
        if T != "int":
            O3 = ("ekat::Pack<std::common_type_t<T,int>,n>* RS", "std::common_type_t<T,int>* RS", "o")
            I = ("int", "int", "k")
            d.e("arith", nm + "_pk", "void", [O3, A, I], "NEW(*a %s k);" % op, "FOR(n) o[i]=a[i] %s k;" % op, what + "(Pack,int)")
            d.e("arith", nm + "_kp", "void", [O3, A, I], "NEW(k %s *a);" % op, "FOR(n) o[i]=k %s a[i];" % op, what + "(int,Pack)")
        # same operand twice
        d.e("arith", nm + "_aa", "void", [O, A], "NEW(*a %s *a);" % op, "FOR(n) o[i]=a[i] %s a[i];" % op, what + "(p,p)")
    # ---- compound assignment
    for op in ("=", "+=", "-=", "*=", "/="):
        nm = "asg" + {"=": "", "+=": "add", "-=": "sub", "*=": "mul", "/=": "div"}[op]
        w = "operator" + op
        d.e("arith", nm + "_p", "void", [O, A], "*o %s *a;" % op, "FOR(n) o[i] %s a[i];" % op, w + "(Pack)")
        d.e("arith", nm + "_s", "void", [O, S], "*o %s s;" % op, "FOR(n) o[i] %s s;" % op, w + "(scalar)")
        d.e("arith", nm + "_q", "void", [O, C], "*o %s *c;" % op, "FOR(n) o[i] %s c[i];" % op, w + "(Pack of another type)")
        d.e("arith", nm + "_z", "void", [O, S2], "*o %s z;" % op, "FOR(n) o[i] %s z;" % op, w + "(scalar of another type)")
        d.e("arith", nm + "_qv", "void", [O, C], "volatile P& v=*o; v %s *c;" % op, "FOR(n) o[i] %s c[i];" % op, w + "(Pack of another type) volatile")
        d.e("arith", nm + "_self", "void", [O], "*o %s *o;" % op, "FOR(n) o[i] %s o[i];" % op, w + "(*this)")
        d.e("arith", nm + "_ret", "void", [O, A, B], "(*o %s *a) %s *b;" % (op, op), "FOR(n) { o[i] %s a[i]; o[i] %s b[i]; }" % (op, op), "chained " + w)
        # the scalar operand is a lane of the pack itself
        for lane in sorted({0, n - 1}):
            d.e("arith", nm + "_lane%d" % lane, "void", [O], "P& p=*o; const P& cp=p; p %s cp[%d];" % (op, lane), "T s=o[%d]; FOR(n) o[i] %s s;" % (lane, op), w + "(own lane)")
    d.e("arith", "neg", "void", [O, A], "NEW(-*a);", "FOR(n) o[i]=-a[i];", "unary operator-")
    # ---- construction, element access
    d.e("arith", "ctor_def", "void", [O], "NEW(P());", "FOR(n) o[i]=T(0);", "Pack()")
    d.e("arith", "ctor_s", "void", [O, S], "NEW(P(s));", "FOR(n) o[i]=s;", "Pack(scalar)")
    d.e("arith", "ctor_q", "void", [O, C], "NEW(P(*c));", "FOR(n) o[i]=c[i];", "Pack(Pack of another type)")
    d.e("arith", "ctor_p", "void", [O, A], "new(o) P(*a);", "FOR(n) o[i]=a[i];", "Pack(const Pack&)")
    d.e("arith", "ctor_v", "void", [O, A], "const volatile P& v=*a; new(o) P(v);", "FOR(n) o[i]=a[i];", "Pack(const volatile Pack&)")
    I = ("int", "int", "k")
    d.e("arith", "get", "T", [A, I], "return (*a)[k];", "return a[k];", "operator[] const")
    d.e("arith", "put", "void", [O, I, S], "(*o)[k] = s;", "o[k]=s;", "operator[]")
    d.e("arith", "range", "void", [O, S], "NEW(ekat::range<P>(s));", "FOR(n) o[i]=s+i;", "range")
    for nm in ("shift_right", "shift_left"):
        first = "0" if nm == "shift_right" else "n-1"
        src = "n-1" if nm == "shift_right" else "0"
        body = "for(int i=1;i<n;++i) o[i]=b[i-1];" if nm == "shift_right" else "for(int i=0;i<n-1;++i) o[i]=b[i+1];"
        d.e("lanes", nm + "_p", "void", [O, A, B], "NEW(ekat::%s(*a,*b));" % nm, "o[%s]=a[%s]; %s" % (first, src, body), nm + "(Pack,Pack)")
        d.e("lanes", nm + "_s", "void", [O, S, B], "NEW(ekat::%s(s,*b));" % nm, "o[%s]=s; %s" % (first, body), nm + "(scalar,Pack)")
        d.e("lanes", nm + "_lane", "void", [O], "P& p=*o; p = ekat::%s(p[0],p);" % nm, "T b[n]; FOR(n) b[i]=o[i]; o[%s]=b[0]; %s" % (first, body), nm + "(own lane,p)")
        d.e("lanes", nm + "_aa", "void", [O], "*o = ekat::%s(*o,*o);" % nm, "T b[n]; FOR(n) b[i]=o[i]; o[%s]=b[%s]; %s" % (first, src, body), nm + "(p,p)")
    # ---- min/max of two operands
    for f in ("min", "max"):
        d.e("arith", f + "_pp", "void", [O, A, B], "NEW(ekat::%s(*a,*b));" % f, "FOR(n) o[i]=s%s<T>(a[i],b[i]);" % f, f + "(Pack,Pack)")
        d.e("arith", f + "_ps", "void", [O, A, S], "NEW(ekat::%s(*a,s));" % f, "FOR(n) o[i]=s%s<T>(a[i],s);" % f, f + "(Pack,scalar)")
        d.e("arith", f + "_sp", "void", [O, A, S], "NEW(ekat::%s(s,*a));" % f, "FOR(n) o[i]=s%s<T>(s,a[i]);" % f, f + "(scalar,Pack)")
        d.e("arith", f + "_pz", "void", [O, A, S2], "NEW(ekat::%s(*a,z));" % f, "FOR(n) o[i]=s%s<T>(a[i],z);" % f, f + "(Pack,scalar of another type)")
        # horizontal
        d.e("reduce", "h" + f, "T", [A], "return ekat::%s(*a);" % f, "T v=a[0]; for(int i=0;i<n;++i) v=s%s<T>(v,a[i]); return v;" % f, f + "(Pack)")
        d.e("reduce", "m" + f, "T", [MA, S, A], "return ekat::%s(*m,s,*a);" % f, "T v=s; FOR(n) if(m[i]) v=s%s<T>(v,a[i]); return v;" % f, f + "(Mask,init,Pack)")
    for ser in ("true", "false"):
        d.e("reduce", "rsum_" + ser, "T", [A], "return ekat::reduce_sum<%s>(*a);" % ser, "T v=T(0); FOR(n) v+=a[i]; return v;", "reduce_sum<%s>(Pack)" % ser)
        d.e("reduce", "rsumo_" + ser, "void", [("T* RS", "T* RS", "o"), A], "ekat::reduce_sum<%s>(*a,*o);" % ser, "T v=*o; FOR(n) v+=a[i]; *o=v;", "reduce_sum<%s>(Pack,sum)" % ser)
        d.e("reduce", "rsumt_" + ser, "T", [A], "return ekat::reduce_sum<P,%s>(*a);" % ser, "T v=T(0); FOR(n) v+=a[i]; return v;", "reduce_sum<Pack,%s>(Pack)" % ser)
    d.e("reduce", "rsum_def", "T", [A], "return ekat::reduce_sum(*a);", "T v=T(0); FOR(n) v+=a[i]; return v;", "reduce_sum(Pack)")
    d.e("reduce", "redid", "void", [O], "NEW(Kokkos::reduction_identity<P>::sum());", "FOR(n) o[i]=T(0);", "reduction_identity<Pack>::sum")
    d.e("reduce", "invalid", "void", [O], "NEW(ekat::invalid<P>());", "FOR(n) o[i]=" + ("std::numeric_limits<T>::quiet_NaN();" if T in ("float", "double") else "std::numeric_limits<T>::max();"), "invalid<Pack>")
    OS = ("std::ostream&", "std::ostream&", "os")
    d.e("reduce", "print", "void", [OS, A], "os << *a;", "FOR(n) os << a[i] << ' ';", "operator<<(ostream,Pack)")
    d.e("reduce", "printr", "bool", [OS, A], "return &(os << *a) == &os;", "FOR(n) os << a[i] << ' '; return true;", "operator<<(ostream,Pack) returns the stream")
    # ---- math
    if T in ("float", "double"):
        for f in ("abs", "exp", "expm1", "log", "log10", "tgamma", "sqrt", "cbrt", "tanh", "erf"):
            d.e("math", f, "void", [O, A], "NEW(ekat::%s(*a));" % f, "FOR(n) o[i]=std::%s(a[i]);" % f, f + "(Pack)")
        d.e("math", "pow_pp", "void", [O, A, B], "NEW(ekat::pow(*a,*b));", "FOR(n) o[i]=std::pow(a[i],b[i]);", "pow(Pack,Pack)")
        d.e("math", "pow_ps", "void", [O, A, S], "NEW(ekat::pow(*a,s));", "FOR(n) o[i]=std::pow(a[i],s);", "pow(Pack,scalar)")
        d.e("math", "pow_sp", "void", [O, A, S], "NEW(ekat::pow(s,*a));", "FOR(n) o[i]=std::pow(s,a[i]);", "pow(scalar,Pack)")
        d.e("math", "pow_pk", "void", [O, A, I], "NEW(ekat::pow(*a,k));", "FOR(n) o[i]=std::pow(a[i],k);", "pow(Pack,int)")
        d.e("math", "isnan", "void", [MO, A], "*o = ekat::isnan(*a);", "FOR(n) o[i]= (a[i]!=a[i]);", "isnan(Pack)")
    d.e("math", "square", "void", [O, A], "NEW(ekat::square(*a));", "FOR(n) o[i]=a[i]*a[i];", "square(Pack)")
    d.e("math", "cube", "void", [O, A], "NEW(ekat::cube(*a));", "FOR(n) o[i]=a[i]*a[i]*a[i];", "cube(Pack)")
    # ---- comparisons and masks
    for op, nm in CMP.items():
        d.e("mask", nm + "_pp", "void", [MO, A, B], "*o = *a %s *b;" % op, "FOR(n) o[i]= a[i] %s b[i];" % op, "operator%s(Pack,Pack)" % op)
        d.e("mask", nm + "_ps", "void", [MO, A, S], "*o = *a %s s;" % op, "FOR(n) o[i]= a[i] %s s;" % op, "operator%s(Pack,scalar)" % op)
        d.e("mask", nm + "_sp", "void", [MO, A, S], "*o = s %s *a;" % op, "FOR(n) o[i]= s %s a[i];" % op, "operator%s(scalar,Pack)" % op)
        d.e("mask", nm + "_pz", "void", [MO, A, S2], "*o = *a %s z;" % op, "FOR(n) o[i]= a[i] %s z;" % op, "operator%s(Pack,scalar of another type)" % op)
        d.e("mask", nm + "_zp", "void", [MO, A, S2], "*o = z %s *a;" % op, "FOR(n) o[i]= z %s a[i];" % op, "operator%s(scalar of another type,Pack)" % op)
    if T == "double":
        Bl = ("bool", "bool", "b")
        d.e("mask", "m_and", "void", [MO, MA, MB], "*o = *m && *q;", "FOR(n) o[i]= m[i]!=0 && q[i]!=0;", "operator&&(Mask,Mask)")
        d.e("mask", "m_or", "void", [MO, MA, MB], "*o = *m || *q;", "FOR(n) o[i]= m[i]!=0 || q[i]!=0;", "operator||(Mask,Mask)")
        d.e("mask", "m_andb", "void", [MO, MA, Bl], "*o = *m && b;", "FOR(n) o[i]= m[i]!=0 && b;", "operator&&(Mask,bool)")
        d.e("mask", "m_orb", "void", [MO, MA, Bl], "*o = *m || b;", "FOR(n) o[i]= m[i]!=0 || b;", "operator||(Mask,bool)")
        d.e("mask", "m_not", "void", [MO, MA], "*o = !*m;", "FOR(n) o[i]= m[i]==0;", "operator!(Mask)")
        d.e("mask", "m_eq", "bool", [MA, MB], "return *m == *q;", "bool r=true; FOR(n) if((m[i]!=0)!=(q[i]!=0)) r=false; return r;", "operator==(Mask,Mask)")
        d.e("mask", "m_any", "bool", [MA], "return m->any();", "bool r=false; FOR(n) if(m[i]) r=true; return r;", "Mask::any")
        d.e("mask", "m_all", "bool", [MA], "return m->all();", "bool r=true; FOR(n) if(!m[i]) r=false; return r;", "Mask::all")
        d.e("mask", "m_none", "bool", [MA], "return m->none();", "bool r=true; FOR(n) if(m[i]) r=false; return r;", "Mask::none")
        d.e("mask", "m_ctor", "void", [MO, Bl], "NEW(M(b));", "FOR(n) o[i]=b;", "Mask(bool)")
        d.e("mask", "m_set", "void", [MO, I, Bl], "o->set(k,b);", "o[k]=b;", "Mask::set")
        d.e("mask", "m_get", "bool", [MA, I], "return (*m)[k];", "return m[k]!=0;", "Mask::operator[]")
        d.e("mask", "m_loop", "void", [("int* RS", "int* RS", "o"), MA], "const M& mm=*m; ekat_masked_loop(mm,s) { o[s]+=s; }", "FOR(n) if(m[i]) o[i]+=i;", "ekat_masked_loop")
        d.e("mask", "m_loopnv", "void", [("int* RS", "int* RS", "o"), MA], "const M& mm=*m; ekat_masked_loop_no_vec(mm,s) { o[s]+=s; }", "FOR(n) if(m[i]) o[i]+=i;", "ekat_masked_loop_no_vec")
    # ---- masked updates
    d.e("masked", "set_s", "void", [O, MA, S], "o->set(*m,s);", "FOR(n) if(m[i]) o[i]=s;", "Pack::set(Mask,scalar)")
    d.e("masked", "set_p", "void", [O, MA, A], "o->set(*m,*a);", "FOR(n) if(m[i]) o[i]=a[i];", "Pack::set(Mask,Pack)")
    d.e("masked", "set_q", "void", [O, MA, C], "o->set(*m,*c);", "FOR(n) if(m[i]) o[i]=c[i];", "Pack::set(Mask,Pack of another type)")
    S3 = ("T", "T", "u")
    d.e("masked", "set_ss", "void", [O, MA, S, S3], "o->set(*m,s,u);", "FOR(n) o[i]= m[i]?s:u;", "Pack::set(Mask,scalar,scalar)")
    d.e("masked", "set_pp", "void", [O, MA, A, B], "o->set(*m,*a,*b);", "FOR(n) o[i]= m[i]?a[i]:b[i];", "Pack::set(Mask,Pack,Pack)")
    d.e("masked", "set_pq", "void", [O, MA, A, C], "o->set(*m,*a,*c);", "FOR(n) if(m[i]) o[i]=a[i]; else o[i]=c[i];", "Pack::set(Mask,Pack,Pack of another type)")
    if n > 1:
        d.e("masked", "set_lane", "void", [O, MA], "P& p=*o; const P& cp=p; p.set(*m,cp[0],cp[%d]);" % (n - 1), "T s=o[0], u=o[n-1]; FOR(n) o[i]= m[i]?s:u;", "Pack::set(Mask,own lane,own lane)")
        d.e("masked", "set_lane1", "void", [O, MA], "P& p=*o; const P& cp=p; p.set(*m,cp[0]);", "T s=o[0]; FOR(n) if(m[i]) o[i]=s;", "Pack::set(Mask,own lane)")
    d.e("masked", "ctor_m_s", "void", [O, MA, S], "NEW(P(*m,s));", "FOR(n) o[i]= m[i]?s:T(0);", "Pack(Mask,scalar)")
    d.e("masked", "ctor_m_ss", "void", [O, MA, S, S3], "NEW(P(*m,s,u));", "FOR(n) o[i]= m[i]?s:u;", "Pack(Mask,scalar,scalar)")
    d.e("masked", "ctor_m_pp", "void", [O, MA, A, B], "NEW(P(*m,*a,*b));", "FOR(n) o[i]= m[i]?a[i]:b[i];", "Pack(Mask,Pack,Pack)")
    AL = [("T", "T", "al"), ("T", "T", "be")]
    d.e("masked", "upd", "void", [O, A] + AL, "o->update(*a,al,be);", "FOR(n) o[i]=be*o[i]+al*a[i];", "Pack::update(x,alpha,beta)")
    d.e("masked", "upd_m", "void", [O, MA, A] + AL, "o->update(*m,*a,al,be);", "FOR(n) if(m[i]) o[i]=be*o[i]+al*a[i];", "Pack::update(Mask,x,alpha,beta)")
    d.e("masked", "upd_mm", "void", [O, MA, A, B] + AL, "o->update(*m,*a,*b,al,be);", "FOR(n) if(m[i]) o[i]=be*o[i]+al*a[i]; else o[i]=be*o[i]+al*b[i];", "Pack::update(Mask,x,y,alpha,beta)")
    one = "T(1)"
    d.e("masked", "add", "void", [O, A] + AL[:1], "o->add(*a,al);", "FOR(n) o[i]=%s*o[i]+al*a[i];" % one, "Pack::add(x,alpha)")
    d.e("masked", "add_m", "void", [O, MA, A] + AL[:1], "o->add(*m,*a,al);", "FOR(n) if(m[i]) o[i]=%s*o[i]+al*a[i];" % one, "Pack::add(Mask,x,alpha)")
    d.e("masked", "add_mm", "void", [O, MA, A, B] + AL[:1], "o->add(*m,*a,*b,al);", "FOR(n) if(m[i]) o[i]=%s*o[i]+al*a[i]; else o[i]=%s*o[i]+al*b[i];" % (one, one), "Pack::add(Mask,x,y,alpha)")
    d.e("masked", "upd_def", "void", [O, A], "o->update(*a);", "FOR(n) o[i]=T(0)*o[i]+T(1)*a[i];", "Pack::update(x)")
    d.e("masked", "add_def", "void", [O, A], "o->add(*a);", "FOR(n) o[i]=T(1)*o[i]+T(1)*a[i];", "Pack::add(x)")
    # the destination is one of the operands
    ax = "al*%s[i]"
    for k, (x, y) in enumerate((("o", "a"), ("a", "o"), ("o", "o"))):
        w = "(%s)" % ",".join({"o": "*this", "a": "x"}[q] for q in (x, y))
        ps = [O, MA] + ([A] if "a" in (x, y) else [])
        d.e("masked", "al_set%d" % k, "void", ps, "o->set(*m,*%s,*%s);" % (x, y), "FOR(n) o[i]= m[i]?%s[i]:%s[i];" % (x, y), "Pack::set(Mask,x,y)" + w)
        d.e("masked", "al_upd%d" % k, "void", ps + AL, "o->update(*m,*%s,*%s,al,be);" % (x, y), "FOR(n) if(m[i]) o[i]=be*o[i]+al*%s[i]; else o[i]=be*o[i]+al*%s[i];" % (x, y), "Pack::update(Mask,x,y,alpha,beta)" + w)
        d.e("masked", "al_add%d" % k, "void", ps + AL[:1], "o->add(*m,*%s,*%s,al);" % (x, y), "FOR(n) if(m[i]) o[i]=%s*o[i]+al*%s[i]; else o[i]=%s*o[i]+al*%s[i];" % (one, x, one, y), "Pack::add(Mask,x,y,alpha)" + w)
    d.e("masked", "al_setself", "void", [O, MA], "o->set(*m,*o);", "FOR(n) o[i]=o[i];", "Pack::set(Mask,*this)")
    d.e("masked", "al_u", "void", [O] + AL, "o->update(*o,al,be);", "FOR(n) o[i]=be*o[i]+al*o[i];", "Pack::update(*this,alpha,beta)")
    d.e("masked", "al_um", "void", [O, MA] + AL, "o->update(*m,*o,al,be);", "FOR(n) if(m[i]) o[i]=be*o[i]+al*o[i];", "Pack::update(Mask,*this,alpha,beta)")
    d.e("masked", "al_a", "void", [O] + AL[:1], "o->add(*o,al);", "FOR(n) o[i]=T(1)*o[i]+al*o[i];", "Pack::add(*this,alpha)")
    d.e("masked", "al_am", "void", [O, MA] + AL[:1], "o->add(*m,*o,al);", "FOR(n) if(m[i]) o[i]=T(1)*o[i]+al*o[i];", "Pack::add(Mask,*this,alpha)")
    if n > 1:
        d.e("masked", "al_lane_a", "void", [O, A], "P& p=*o; p.update(*a,p[%d],p[0]);" % (n - 1), "T x=o[n-1],y=o[0]; FOR(n) o[i]=y*o[i]+x*a[i];", "Pack::update(x,own lane,own lane)")
    # ---- where expressions
    for op in ("=", "+=", "-=", "*=", "/="):
        nm = "w" + {"=": "asg", "+=": "add", "-=": "sub", "*=": "mul", "/=": "div"}[op]
        d.e("where", nm + "_s", "void", [O, MA, S], "ekat::where(*m,*o) %s s;" % op, "FOR(n) if(m[i]) o[i] %s s;" % op, "where(mask,pack) %s scalar" % op)
        d.e("where", nm + "_p", "void", [O, MA, A], "ekat::where(*m,*o) %s *a;" % op, "FOR(n) if(m[i]) o[i] %s a[i];" % op, "where(mask,pack) %s Pack" % op)
        d.e("where", nm + "_z", "void", [O, MA, S2], "ekat::where(*m,*o) %s z;" % op, "FOR(n) if(m[i]) o[i] %s z;" % op, "where(mask,pack) %s scalar of another type" % op)
        d.e("where", nm + "_q", "void", [O, MA, C], "ekat::where(*m,*o) %s *c;" % op, "FOR(n) if(m[i]) o[i] %s c[i];" % op, "where(mask,pack) %s Pack of another type" % op)
        d.e("where", nm + "_self", "void", [O, MA], "ekat::where(*m,*o) %s *o;" % op, "FOR(n) if(m[i]) o[i] %s o[i];" % op, "where(mask,p) %s p" % op)
        d.e("where", nm + "_lane", "void", [O, MA], "P& p=*o; ekat::where(*m,p) %s p[0];" % op, "T s=o[0]; FOR(n) if(m[i]) o[i] %s s;" % op, "where(mask,p) %s p[0]" % op)
        if op != "=":
            d.e("where", nm + "_red", "void", [("T* RS", "T* RS", "o"), MA, ("P* RS", "const T* RS", "a")], "*o %s ekat::where(*m,*a);" % op, "FOR(n) if(m[i]) *o %s a[i];" % op, "scalar %s where(mask,pack)" % op)
        # plain scalars
        K = ("bool", "bool", "k")
        d.e("where", nm + "_sc", "void", [("T* RS", "T* RS", "o"), K, S], "ekat::where(k,*o) %s s;" % op, "if(k) *o %s s;" % op, "where(bool,scalar) %s scalar" % op)
        if op != "=":
            d.e("where", nm + "_scred", "void", [("T* RS", "T* RS", "o"), K, ("T* RS", "const T* RS", "a")], "*o %s ekat::where(k,*a);" % op, "if(k) *o %s *a;" % op, "scalar %s where(bool,scalar)" % op)
    for f in ("min", "max"):
        PA = ("P* RS", "const T* RS", "a")
        d.e("where", "w%s_p" % f, "T", [MA, PA, S], "return ekat::where(*m,*a).%s(s);" % f, "T v=s; FOR(n) if(m[i]) v=s%s<T>(v,a[i]); return v;" % f, "where(mask,pack).%s" % f)
        d.e("where", "w%s_sc" % f, "T", [("bool", "bool", "k"), ("T* RS", "const T* RS", "a"), S], "return ekat::where(k,*a).%s(s);" % f, "return k ? s%s<T>(s,*a) : s;" % f, "where(bool,scalar).%s" % f)
    PA = ("P* RS", "const T* RS", "a")
    d.e("where", "wany", "bool", [MA, PA], "return ekat::where(*m,*a).any();", "bool r=false; FOR(n) if(m[i]) r=true; return r;", "where.any")
    d.e("where", "wall", "bool", [MA, PA], "return ekat::where(*m,*a).all();", "bool r=true; FOR(n) if(!m[i]) r=false; return r;", "where.all")
    d.e("where", "wnone", "bool", [MA, PA], "return ekat::where(*m,*a).none();", "bool r=true; FOR(n) if(m[i]) r=false; return r;", "where.none")
    d.e("where", "wsany", "int", [("bool", "bool", "k"), ("T* RS", "const T* RS", "a")], "auto w=ekat::where(k,*a); return w.any()+2*w.all()+4*w.none();", "return k+2*k+4*(!k);", "where(bool).any/all/none")
    # the mask is captured by value: changing it afterwards must not matter
    d.e("where", "wval", "T*", [MA, PA], "return &ekat::where(*m,*a).value()[0];", "return (T*)a;", "where.value")
    # ---- pack index arithmetic (non-negative lengths and indices)
    if T == "int":
        L = ("unsigned short", "unsigned short", "l")
        K2 = ("unsigned short", "unsigned short", "j")
        PI = "ekat::PackInfo<n>"
        d.e("info", "npack", "int", [L], "return ekat::npack<P>(l);", "return (l+n-1)/n;", "npack")
        d.e("info", "num_packs", "int", [L], "return %s::num_packs(l);" % PI, "return (l+n-1)/n;", "PackInfo::num_packs")
        d.e("info", "has_padding", "bool", [L], "return %s::has_padding(l);" % PI, "return l%n!=0;", "PackInfo::has_padding")
        d.e("info", "padding", "int", [L], "return %s::padding(l);" % PI, "return ((l+n-1)/n)*n-l;", "PackInfo::padding")
        d.e("info", "last_vec_end", "int", [L], "return %s::last_vec_end(l);" % PI, "return n-(((l+n-1)/n)*n-l);", "PackInfo::last_vec_end")
        d.e("info", "vec_end", "int", [L, K2], "return %s::vec_end(l,j);" % PI, "return (j+1)<(l+n-1)/n ? n : n-(((l+n-1)/n)*n-l);", "PackInfo::vec_end")
        d.e("info", "last_pack_idx", "int", [L], "return %s::last_pack_idx(l);" % PI, "return (l+n-1)/n-1;", "PackInfo::last_pack_idx")
        d.e("info", "pack_idx", "int", [L], "return %s::pack_idx(l);" % PI, "return l/n;", "PackInfo::pack_idx")
        d.e("info", "vec_idx", "int", [L], "return %s::vec_idx(l);" % PI, "return l%n;", "PackInfo::vec_idx")
        d.e("info", "pvi1", "int", [L], "return %s::pack_vec_idx(l).first;" % PI, "return l/n;", "PackInfo::pack_vec_idx")
        d.e("info", "pvi2", "int", [L], "return %s::pack_vec_idx(l).second;" % PI, "return l%n;", "PackInfo::pack_vec_idx")
        d.e("info", "array_idx", "int", [L, K2], "return %s::array_idx(l,j);" % PI, "return l*n+j;", "PackInfo::array_idx")
        d.e("info", "array_idx2", "int", [L, K2], "return %s::array_idx(Kokkos::make_pair<int,int>(l,j));" % PI, "return l*n+j;", "PackInfo::array_idx(pair)")
        d.e("info", "roundtrip", "int", [L], "return %s::array_idx(%s::pack_idx(l),%s::vec_idx(l));" % (PI, PI, PI), "return l;", "array_idx(pack_idx(i),vec_idx(i))")
    return d
