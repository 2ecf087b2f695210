"""P19: type lists, type maps, traits and Kokkos type aliases are what they are named for."""
import itertools
from pairs import *

INC = r'''
#include <type_traits>
#include <string>
#include <ostream>
#include <vector>
#include <memory>
#include <array>
#include <map>
'''
TYP = ["int", "float", "double", "char", "long", "bool", "short"]


class W:
    """a translation unit of static assertions, each with the file it speaks for"""

    def __init__(self, name, inc, fl, src):
        self.name, self.pre, self.fl, self.src = name, inc, fl, src
        self.a = []       # (group, condition)
        self.no = []      # (group, text that must not compile, text that must)

    def w(self, group, cond, what=None):
        self.a.append((group, cond, what or cond))

    def reject(self, group, bad, good, what):
        self.no.append((group, bad, good, what))

    def run(self, rep):
        n = self.pre.count("\n")
        txt = self.pre + "\n".join("static_assert(%s,\"\");" % c for _, c, _ in self.a) + "\n"
        if compiles(self.name + "_0", self.pre, self.fl):
            raise ToolError("%s does not compile: %s" % (self.name, compiles(self.name + "_0", self.pre, self.fl)))
        src = os.path.join(scratch(), self.name + ".cpp")
        open(src, "w").write(txt)
        r = subprocess.run([CLANG] + self.fl + ["-ferror-limit=0", "-fsyntax-only", src], capture_output=True, text=True)
        bad = {}
        lines = r.stderr.split("\n")
        for k, l in enumerate(lines):
            m = re.match(r"^(.+?):(\d+):\d+: (?:fatal )?error: (.*)$", l)
            if not m:
                continue
            if m.group(1) == src:
                bad.setdefault(int(m.group(2)) - n - 1, m.group(3))
                continue
            # an error inside a header: charge the assertion that instantiates it
            for l2 in lines[k + 1:k + 60]:
                m2 = re.match(r"^%s:(\d+):\d+: note:" % re.escape(src), l2)
                if m2:
                    bad.setdefault(int(m2.group(1)) - n - 1, "%s: %s" % (repoloc([(m.group(1), 0, "")]).split(":")[0], m.group(3)))
                    break
                if ": error:" in l2:
                    break
        if r.returncode and not bad:
            raise ToolError("%s does not compile:\n%s" % (self.name, r.stderr[:3000]))
        for k, (g, c, what) in enumerate(self.a):
            if k in bad:
                rep.bad(g, self.src[g], "does not hold: %s (%s)" % (what, bad[k][:300]), key="%s|%s" % (g, what[:80]))
            else:
                rep.ok(g)
        rep.sample(unit=self.name, assertions=len(self.a), rejected=len(self.no))
        for k, (g, b, ok, what) in enumerate(self.no):
            e = compiles("%s_g%d" % (self.name, k), self.pre + ok + "\n", self.fl)
            if e:
                rep.bad(g, self.src[g], "a well-formed use does not compile: %s (%s)" % (ok, e[:300]), key="%s|ok|%s" % (g, what))
            elif not compiles("%s_b%d" % (self.name, k), self.pre + b + "\n", self.fl):
                rep.bad(g, self.src[g], "%s is accepted: %s" % (what, b), key="%s|no|%s" % (g, what))
            else:
                rep.ok(g)


def lists(tier):
    w = W("lists", INC + r'''
#include "ekat_meta_utils.hpp"
using namespace ekat;
template<class... T> using TL = TypeList<T...>;
template<class A,class B> constexpr bool same = std::is_same<A,B>::value;
template<class T> using Vec = std::vector<T>;
template<class T> using Ptr = T*;
template<class T> struct Box {};
struct NoDef { NoDef(int); };
''', flags(False, mpi=False, kokkos=False), {g: "src/core/ekat_meta_utils.hpp" for g in ("typelist", "typemap")})
    N = len(TYP) if tier == "thorough" else 6
    T = TYP[:N]
    for n in range(0, N + 1):
        w.w("typelist", "type_list_size<TL<%s>>::value==%d" % (",".join(T[:n]), n))
        for k in range(n):
            w.w("typelist", "same<type_list_get<TL<%s>,%d>,%s>" % (",".join(T[:n]), k, T[k]))
        for m in range(0, 4):
            w.w("typelist", "same<type_list_cat<TL<%s>,TL<%s>>,TL<%s>>" % (",".join(T[:n]), ",".join(T[:m][::-1]), ",".join(T[:n] + T[:m][::-1])))
        if n:
            for c in ("Vec", "Ptr", "Box"):
                w.w("typelist", "same<apply_template_t<%s,TL<%s>>,TL<%s>>" % (c, ",".join(T[:n]), ",".join("%s<%s>" % (c, t) for t in T[:n])))
                w.w("typelist", "same<typename ApplyTemplate<%s,TL<%s>>::type,TL<%s>>" % (c, ",".join(T[:n]), ",".join("%s<%s>" % (c, t) for t in T[:n])))
    # every list over two/three types up to length 4: first position and uniqueness
    A = ["int", "float", "char"]
    for n in range(1, 5):
        for l in itertools.product(A, repeat=n):
            s = ",".join(l)
            w.w("typelist", "is_type_list_unique<TL<%s>>::value==%s" % (s, "true" if len(set(l)) == n else "false"))
            for t in A:
                w.w("typelist", "FirstOf<%s,TL<%s>>::pos==%d" % (t, s, l.index(t) if t in l else -1))
    for t in ("const int", "int&", "int*", "unsigned", "void", "NoDef"):
        w.w("typelist", "FirstOf<%s,TL<float,%s,int,%s>>::pos==1" % (t, t, t))
        w.w("typelist", "FirstOf<%s,TL<float,double,int>>::pos==-1" % t)
        w.w("typelist", "is_type_list_unique<TL<%s,int>>::value" % t)
        w.w("typelist", "!is_type_list_unique<TL<%s,int,%s>>::value" % (t, t))
    for n in range(1, 5):
        for p in itertools.permutations(T[:4], n):
            ks = TYP[3:3 + n]
            M = "TypeMap<TL<%s>,TL<%s>>" % (",".join(ks), ",".join(p))
            w.w("typemap", "%s::size==%d && same<%s::keys,TL<%s>> && same<%s::vals,TL<%s>>" % (M, n, M, ",".join(ks), M, ",".join(p)))
            for k in TYP:
                if k in ks:
                    w.w("typemap", "%s::has_t<%s>() && same<%s::at_t<%s>,%s>" % (M, k, M, k, p[ks.index(k)]))
                    w.w("typemap", "same<decltype(std::declval<%s&>().at<%s>()),%s&>" % (M, k, p[ks.index(k)]))
                    w.w("typemap", "same<decltype(std::declval<const %s&>().at<%s>()),const %s&>" % (M, k, p[ks.index(k)]))
                else:
                    w.w("typemap", "!%s::has_t<%s>() && same<%s::at_t<%s>,%s::NotFound>" % (M, k, M, k, M))
    w.w("typemap", "same<TypeMap<TL<int,char>,TL<std::string,std::string>>::at_t<char>,std::string>")
    w.w("typemap", "same<TypeMap<TL<void,char>,TL<int,int>>::at_t<void>,int>")
    ok = "template struct ekat::TypeMap<TL<int,char>,TL<float,double>>; float f(TypeMap<TL<int,char>,TL<float,double>>& m){ return m.at<int>(); }"
    w.reject("typemap", "template struct ekat::TypeMap<TL<int,int>,TL<float,double>>;", ok, "a map with a repeated key")
    w.reject("typemap", "template struct ekat::TypeMap<TL<int,char,int>,TL<float,double,char>>;", ok, "a map with a repeated key")
    w.reject("typemap", "template struct ekat::TypeMap<TL<int,char>,TL<float>>;", ok, "a map with fewer values than keys")
    w.reject("typemap", "template struct ekat::TypeMap<TL<int>,TL<float,char>>;", ok, "a map with more values than keys")
    w.reject("typemap", "auto f(TypeMap<TL<int,char>,TL<float,double>>& m){ return m.at<long>(); }", ok, "access with a type that is not a key")
    w.reject("typemap", "auto f(const TypeMap<TL<int,char>,TL<float,double>>& m){ return m.at<long>(); }", ok, "const access with a type that is not a key")
    return w


def traits(tier):
    G = {"traits": "src/core/ekat_type_traits.hpp", "std": "src/core/ekat_std_type_traits.hpp", "scalar": "src/core/ekat_scalar_traits.hpp", "same": "src/core/ekat_std_utils.hpp"}
    w = W("traits", INC + r'''
#include "ekat_type_traits.hpp"
#include "ekat_std_type_traits.hpp"
#include "ekat_scalar_traits.hpp"
#include "ekat_std_utils.hpp"
using namespace ekat;
template<class A,class B> constexpr bool same = std::is_same<A,B>::value;
struct None {};
struct Eq { bool operator==(const Eq&) const; };
struct EqI { bool operator==(int) const; };
struct NC { NC(const NC&)=delete; bool operator==(const NC&) const; };
struct Pr { }; std::ostream& operator<<(std::ostream&, const Pr&);
struct Ex { explicit Ex(int); };
enum E { e1 }; enum class EC { e1 };
''', flags(False, mpi=False, kokkos=False), G)
    for t in ("int", "float", "double", "long double", "char", "const float", "float&", "float*", "None", "const double"):
        w.w("traits", "bool(is_single_precision<%s>::value)==%s" % (t, "true" if t == "float" else "false"))
    # array types: every mix of up to 4 dynamic and 2 static dimensions
    for b in ("double", "const double", "int", "None", "const None"):
        for nd in range(0, 5):
            for st in ([], [3], [2, 4], [5, 1, 2]):
                T = b + "*" * nd + "".join("[%d]" % s for s in st)
                w.w("traits", "same<typename ValueType<%s>::type,%s>" % (T, b))
                w.w("traits", "GetRanks<%s>::rank==%d && GetRanks<%s>::rank_dynamic==%d" % (T, nd + len(st), T, nd))
                if st == []:
                    w.w("std", "same<typename remove_all_pointers<%s>::type,%s>" % (T, b))
                    w.w("std", "same<typename DataND<%s,%d>::type,%s>" % (b, nd, T))
                    w.w("std", "same<typename remove_all_consts<%s>::type,%s>" % (T, T.replace("const ", "")))
        w.w("traits", "same<typename ValueType<%s&>::type,%s> && same<typename ValueType<%s**&>::type,%s>" % (b, b, b, b))
    for t, v in (("std::vector<int>", 1), ("std::vector<std::string>", 1), ("std::vector<bool>", 1), ("std::string", 0), ("int", 0), ("int*", 0), ("std::array<int,2>", 0), ("std::map<int,int>", 0), ("std::vector<std::vector<int>>", 1)):
        w.w("std", "is_vector<%s>::value==%d && (is_vector_v<%s>)==%d" % (t, v, t, v))
    eq = [("int", "int", 1), ("int", "double", 1), ("None", "None", 0), ("Eq", "Eq", 1), ("Eq", "int", 0), ("int", "Eq", 0), ("EqI", "int", 1), ("EqI", "EqI", 0), ("NC", "NC", 1),
          ("std::string", "const char*", 1), ("std::string", "int", 0), ("None", "int", 0), ("int", "None", 0), ("E", "int", 1), ("EC", "EC", 1), ("EC", "int", 0), ("int*", "int*", 1), ("int*", "float*", 0),
          ("std::vector<int>", "std::vector<int>", 1), ("std::vector<int>", "std::vector<float>", 0), ("std::map<int,int>", "int", 0), ("const Eq", "const Eq&", 1), ("Eq", "None", 0)]
    for a, b, v in eq:
        w.w("traits", "EqualExists<%s,%s>::value==%d" % (a, b, v))
    for t, v in (("int", 1), ("double", 1), ("std::string", 1), ("None", 0), ("Eq", 0), ("Pr", 1), ("char", 1), ("const char*", 1), ("Ex", 0), ("EC", 0), ("E", 1), ("std::map<int,int>", 0), ("void*", 1), ("std::unique_ptr<int>", 0), ("std::array<int,2>", 0)):
        w.w("traits", "StreamExists<%s>::value==%d" % (t, v))
    for t in ("bool", "char", "signed char", "unsigned char", "short", "int", "unsigned", "long", "unsigned long", "long long", "float", "double", "long double"):
        for q in ("%s", "const %s", "volatile %s", "const volatile %s", "%s&", "const %s&", "%s&&", "volatile %s&", "const %s&&"):
            S = "ScalarTraits<" + q % t + ">"
            w.w("scalar", "same<%s::value_type,%s> && same<%s::scalar_type,%s> && !%s::is_simd && !%s::specialized && %s::is_floating_point==%s"
                % (S, t, S, t, S, S, S, "true" if t in ("float", "double", "long double") else "false"))
    for t in ("std::string", "int*", "None", "std::vector<double>", "void", "EC"):
        w.reject("scalar", "template struct ekat::ScalarTraits<%s>;" % t, "template struct ekat::ScalarTraits<double>;", "a non-arithmetic scalar")
    A = ["int", "float", "const int"]
    for n in range(1, 5):
        for l in itertools.product(A, repeat=n):
            w.w("same", "SameType<%s>::value==%s" % (",".join(l), "true" if len(set(l)) == 1 else "false"))
            if len(set(l)) == 1:
                w.w("same", "same<typename SameType<%s>::type,%s>" % (",".join(l), l[0]))
    return w


def packs(tier):
    w = W("packtraits", INC + '#include "ekat_pack.hpp"\nusing namespace ekat;\ntemplate<class A,class B> constexpr bool same = std::is_same<A,B>::value;\n',
          flags(False, mpi=False, kokkos=True), {"simd": "src/pack/ekat_pack.hpp"})
    for n in (1, 2, 4, 8, 16):
        for t in ("double", "float", "int", "long", "bool"):
            for q in ("%s", "const %s", "volatile %s", "%s&", "const %s&", "%s&&"):
                P = "Pack<%s,%d>" % (t, n)
                S = "ScalarTraits<" + q % P + ">"
                w.w("simd", "same<%s::value_type,%s> && same<%s::scalar_type,%s> && %s::is_simd && %s::specialized && %s::is_floating_point==%s"
                    % (S, P, S, t, S, S, S, "true" if t in ("double", "float") else "false"))
            w.w("simd", "%s::n==%d && same<%s::scalar,%s>" % (P, n, P, t))
        for q in ("%s", "const %s", "%s&"):
            S = "ScalarTraits<" + q % ("Mask<%d>" % n) + ">"
            w.w("simd", "same<%s::value_type,Mask<%d>> && same<%s::scalar_type,Mask<%d>::type> && %s::is_simd && %s::specialized && !%s::is_floating_point" % (S, n, S, n, S, S, S))
    for n in (3, 6, 12):
        w.reject("simd", "template struct ekat::ScalarTraits<Pack<double,%d>>;" % n, "template struct ekat::ScalarTraits<Pack<double,4>>;", "a pack length that is not a power of two")
    return w


def kokkos(tier, gpu):
    # the GPU branch is read with the OpenMP space standing in for the GPU space
    pre = INC + ('#include <Kokkos_Core.hpp>\n' + ('#define EKAT_ENABLE_GPU\nnamespace Kokkos { using Cuda = OpenMP; }\n#define KOKKOS_ENABLE_CUDA\n' if gpu else '') +
                 '#include "ekat_kokkos_types.hpp"\n'
                 'using namespace ekat; struct Tag {};\ntemplate<class A,class B> constexpr bool same = std::is_same<A,B>::value;\n'
                 'template<class V> constexpr unsigned mt = (V::traits::memory_traits::is_random_access?2:0)|(V::traits::memory_traits::is_atomic?4:0)|(V::traits::memory_traits::is_restrict?8:0)|(V::traits::memory_traits::is_aligned?16:0)|(V::traits::memory_traits::is_unmanaged?1:0);\n'
                 'template<class V,class DT,class L,class D,unsigned M> constexpr bool isview = same<typename V::traits::data_type,DT> && same<typename V::traits::array_layout,L> && same<typename V::traits::device_type,typename D::device_type> && mt<V> ==M;\n'
                 'using DD = Kokkos::Device<Kokkos::DefaultExecutionSpace,Kokkos::DefaultExecutionSpace::memory_space>; using HD = Kokkos::Device<Kokkos::DefaultHostExecutionSpace,Kokkos::DefaultHostExecutionSpace::memory_space>;\n'
                 'template<class T> using KT = KokkosTypes<T>;\n')
    w = W("kktypes%d" % gpu, pre, flags(False, mpi=False, kokkos=True), {"kokkos": "src/kokkos/ekat_kokkos_types.hpp", "unmanaged": "src/kokkos/ekat_kokkos_meta.hpp", "gpu": "src/kokkos/ekat_kokkos_types.hpp"})
    w.w("gpu", "OnGpu<Kokkos::OpenMP>::value==%s && !OnGpu<int>::value" % ("true" if gpu else "false"))
    if gpu:
        return w
    w.w("kokkos", "same<DefaultDevice,DD> && same<HostDevice,HD>")
    L = {"view": "Kokkos::LayoutRight", "lview": "Kokkos::LayoutLeft", "sview": "Kokkos::LayoutStride"}
    for D in ("DD", "HD"):
        K = "KT<%s>" % D
        w.w("kokkos", "same<%s::Device,%s> && same<%s::Layout,Kokkos::LayoutRight> && same<%s::MemSpace,%s::memory_space> && same<%s::ExeSpace,%s::execution_space>" % (K, D, K, K, D, K, D))
        w.w("kokkos", "same<%s::TeamPolicy::execution_space,%s::execution_space> && same<%s::RangePolicy::execution_space,%s::execution_space> && same<%s::MemberType,typename Kokkos::TeamPolicy<%s::execution_space>::member_type>" % (K, D, K, D, K, D))
        w.w("kokkos", "same<typename %s::RangeTagPolicy<Tag>::work_tag,Tag> && same<typename %s::TeamTagPolicy<Tag>::work_tag,Tag> && same<typename %s::RangePolicy::work_tag,void> && same<typename %s::TeamPolicy::work_tag,void>" % (K, K, K, K))
        w.w("kokkos", "same<typename %s::RangeTagPolicy<Tag>::execution_space,%s::execution_space> && same<typename %s::TeamTagPolicy<Tag>::execution_space,%s::execution_space>" % (K, D, K, D))
        for M in (0, 1, 2, 4, 8, 16, 19):
            mt = "Kokkos::MemoryTraits<%d>" % M
            for v, l in L.items():
                for DT in ("double*", "const double**", "int***", "double*[3]", "float****", "double"):
                    w.w("kokkos", "isview<typename %s::%s<%s,%s>,%s,%s,%s,%d>" % (K, v, DT, mt, DT, l, D, M))
            for T in ("double", "const int"):
                for n in range(0, 6):
                    w.w("kokkos", "isview<typename %s::view_ND<%s,%d,%s>,%s,Kokkos::LayoutRight,%s,%d>" % (K, T, n, mt, T + "*" * n, D, M))
                for n in (1, 2, 3):
                    w.w("kokkos", "isview<typename %s::view_%dd<%s,%s>,%s,Kokkos::LayoutRight,%s,%d>" % (K, n, T, mt, T + "*" * n, D, M))
            w.w("kokkos", "isview<typename %s::view_1d_table<double,5,%s>,const double[5],Kokkos::LayoutRight,%s,%d>" % (K, mt, D, M))
            w.w("kokkos", "isview<typename %s::view_2d_table<double,5,7,%s>,const double[5][7],Kokkos::LayoutRight,%s,%d>" % (K, mt, D, M))
        for v, a in (("view<double*>", "double*"), ("view_1d<double>", "double*"), ("view_2d<double>", "double**"), ("view_3d<double>", "double***"), ("view_ND<double,4>", "double****"), ("view_1d_table<double,3>", "const double[3]"), ("view_2d_table<double,3,2>", "const double[3][2]")):
            w.w("kokkos", "isview<typename %s::%s,%s,Kokkos::LayoutRight,%s,0>" % (K, v, a, D))
        w.w("kokkos", "isview<typename %s::lview<int**>,int**,Kokkos::LayoutLeft,%s,0> && isview<typename %s::sview<int**>,int**,Kokkos::LayoutStride,%s,0>" % (K, D, K, D))
        for a, c in (("view_1d_ptr_array", ""), ("view_1d_ptr_carray", "const ")):
            A = "typename %s::%s<double,6>" % (K, a)
            w.w("kokkos", "sizeof(%s)==6*sizeof(void*) && std::is_pointer<typename std::decay<decltype(std::declval<%s&>()[0])>::type>::value" % (A, A))
            P = "typename std::remove_pointer<typename std::decay<decltype(std::declval<%s&>()[0])>::type>::type" % A
            w.w("kokkos", "std::is_const<%s>::value==%s && isview<typename std::remove_const<%s>::type,double*,Kokkos::LayoutRight,%s,1>" % (P, "true" if c else "false", P, D))
    w.w("kokkos", "isview<ViewLR<double**>,double**,Kokkos::LayoutRight,DD,0> && isview<ViewLS<double**>,double**,Kokkos::LayoutStride,DD,0>")
    w.w("kokkos", "isview<ViewLR<double**,HD,Kokkos::MemoryTraits<1>>,double**,Kokkos::LayoutRight,HD,1> && isview<ViewLS<int*,HD,Kokkos::MemoryTraits<2>>,int*,Kokkos::LayoutStride,HD,2>")
    for M in range(32):
        for DT, lay in (("double*", "Kokkos::LayoutRight"), ("const double**", "Kokkos::LayoutLeft"), ("int*[3]", "Kokkos::LayoutStride")):
            V = "Kokkos::View<%s,%s,DD,Kokkos::MemoryTraits<%d>>" % (DT, lay, M)
            w.w("unmanaged", "isview<Unmanaged<%s>,%s,%s,DD,%d>" % (V, DT, lay, M | 1))
            if lay != "Kokkos::LayoutStride":
                w.w("unmanaged", "(unsigned)MemoryTraitsMask<%s>::value==%du" % (V, M))
            w.w("unmanaged", "same<Unmanaged<Unmanaged<%s>>,Unmanaged<%s>> && std::is_constructible<Unmanaged<%s>,%s>::value" % (V, V, V, V))
    return w


FOR = INC + r'''
#include <new>
#include "ekat_meta_utils.hpp"
using namespace ekat;
template<class... T> using TL = TypeList<T...>;
template<class T> struct Id; 
template<> struct Id<int>{ static constexpr int v=1; }; template<> struct Id<float>{ static constexpr int v=2; }; template<> struct Id<char>{ static constexpr int v=3; }; template<> struct Id<double>{ static constexpr int v=4; };
extern "C" void visit(int); extern "C" bool stop(int);
using M3 = TypeMap<TL<int,char,float>,TL<double,int,double>>;
using M1 = TypeMap<TL<char>,TL<long>>;
using M4 = TypeMap<TL<int,char,float,double>,TL<int,int,int,int>>;
'''


def dynamic(rep):
    d = Drv(FOR)
    ids = {"int": 1, "float": 2, "char": 3, "double": 4}
    for n, l in (("1", ["int"]), ("2", ["float", "int"]), ("3", ["int", "float", "char"]), ("4", ["double", "char", "float", "int"])):
        L = "TL<%s>" % ",".join(l)
        d.e("loop", "for" + n, "void", [], "TypeListFor<%s>([&](auto t){ visit(Id<decltype(t)>::v); });" % L, " ".join("visit(%d);" % ids[t] for t in l), "TypeListFor: %s" % L)
        d.e("loop", "brk" + n, "void", [], "TypeListFor<%s>([&](auto t){ return stop(Id<decltype(t)>::v); });" % L,
            "".join(("if(stop(%d)) return; " if k < len(l) - 1 else "stop(%d);") % ids[t] for k, t in enumerate(l)), "TypeListFor with a stopping body: %s" % L)
        d.e("loop", "int" + n, "void", [], "TypeListFor<%s>([&](auto t){ visit(Id<decltype(t)>::v); return 1; });" % L, " ".join("visit(%d);" % ids[t] for t in l), "TypeListFor with a non-bool result: %s" % L)
    M = "M3* m"
    d.e("map", "at3", "double", [(M, ""), ("int v", "")], "m->at<char>()=v; return m->at<int>()-m->at<float>();", "std::tuple<double,int,double>& t=*m; std::get<1>(t)=v; return std::get<0>(t)-std::get<2>(t);", "TypeMap::at: three keys")
    d.e("map", "cat3", "double", [("const M3* m", "")], "return m->at<int>()-m->at<float>()*m->at<char>();", "const std::tuple<double,int,double>& t=*m; return std::get<0>(t)-std::get<2>(t)*std::get<1>(t);", "TypeMap::at const: three keys")
    d.e("map", "adr", "const void*", [("const M4* m", "")], "return &m->at<float>();", "const std::tuple<int,int,int,int>& t=*m; return &std::get<2>(t);", "TypeMap::at: refers to the stored value")
    d.e("map", "hasd", "bool", [("const M3* m", ""), ("double v", "")], "return m->has_v(v);", "const std::tuple<double,int,double>& t=*m; return std::get<0>(t)==v || std::get<2>(t)==v;", "TypeMap::has_v: two values of that type")
    d.e("map", "hasi", "bool", [("const M3* m", ""), ("int v", "")], "return m->has_v(v);", "const std::tuple<double,int,double>& t=*m; return std::get<1>(t)==v;", "TypeMap::has_v: one value of that type")
    d.e("map", "hasl", "bool", [("const M3* m", ""), ("long v", "")], "return m->has_v(v);", "return false;", "TypeMap::has_v: no value of that type")
    d.e("map", "has1", "bool", [("const M1* m", ""), ("long v", "")], "return m->has_v(v);", "const std::tuple<long>& t=*m; return std::get<0>(t)==v;", "TypeMap::has_v: single entry")
    d.e("map", "has4", "bool", [("const M4* m", ""), ("int v", "")], "return m->has_v(v);", "const std::tuple<int,int,int,int>& t=*m; return std::get<0>(t)==v||std::get<1>(t)==v||std::get<2>(t)==v||std::get<3>(t)==v;", "TypeMap::has_v: four values")
    run_pairs(rep, "tlfor", d, flags(True, mpi=False, kokkos=False))


def part(x):
    k, tier = x
    rep = Report("P19", tier, "")
    if k == "dyn":
        dynamic(rep)
    else:
        {"lists": lists, "traits": traits, "packs": packs, "kk0": lambda t: kokkos(t, 0), "kk1": lambda t: kokkos(t, 1)}[k](tier).run(rep)
    return rep


def check(pid, tier):
    rep = Report(pid, tier, "static assertions over the instantiated types of the current headers; value-graph equality for the run-time parts")
    for r in pmap(part, [(k, tier) for k in ("lists", "traits", "packs", "kk0", "kk1", "dyn")]):
        rep.merge(r)
    for g, n in (("typelist", 100), ("typemap", 100), ("traits", 100), ("std", 50), ("scalar", 100), ("same", 50), ("simd", 50), ("kokkos", 100), ("unmanaged", 64), ("gpu", 2), ("loop", 12), ("map", 8)):
        rep.need(g, n)
    rep.assumptions += ["clang's template instantiation is the meaning of the traits; lists of up to %d types, maps of up to 4 keys" % len(TYP)]
    return rep.finish("type-level queries evaluated by the compiler on exhaustive small families of types (all lists over 3 types up to length 4, all permutations of map values, all 32 memory-trait masks); loops and maps compared with the written-out statements")
