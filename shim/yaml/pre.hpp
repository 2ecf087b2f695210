// What the parser is built on, as plain structures: text to numbers and back are
// functions of the text and of the number, parameter lists keep a text of what was set.
#include <cstdlib>
#include <cstdio>
#include <new>
#include <string>
#include <vector>
#include <list>
#include <sstream>
#include <fstream>
#include <iostream>
#include <iomanip>
#include <algorithm>
#include <stdexcept>
#include <limits>
#include <set>
#include <map>
#include <cmath>
#include <cctype>
#include <type_traits>
#define RS __restrict
extern "C" char x_scratch[16];
using S=std::string;
inline void die(){ std::abort(); }
extern "C" {
bool x_numfail(const S*); bool x_numeof(const S*); bool x_subnormal(const S*); double x_todouble(const S*);
bool x_intfail(const S*); bool x_inteof(const S*); int x_toint(const S*);
void x_puti(S*, int); void x_putd(S*, double);
bool x_isopen(const S*);
}
// strings are kept apart from what refers to them, and are given back in the opposite order
alignas(S) static char x_strs[24*sizeof(S)]; static int x_n;
inline S* x_str(int i) { return (S*)x_strs+i; }
inline S* x_take() { return ::new((void*)x_str(x_n++)) S(); }
static S* x_out;                    // the file that is written, or what was opened
static S* x_shown; static S* x_plain;   // the number of a driver, with and without trailing zeros
inline void x_log(const S& f) { if(x_out) { *x_out+='@'; *x_out+=f; *x_out+=':'; } }
struct x_text { const S* s; operator const S&() const { return *s; } };
// what a reader takes a text for (an int only if it fits in one)
inline bool x_up(const S& v, std::size_t i, char u) { return std::toupper((unsigned char)v[i])==u; }
inline bool x_true(const S& v) { return v.size()==4 && x_up(v,0,'T') && x_up(v,1,'R') && x_up(v,2,'U') && x_up(v,3,'E'); }
inline bool x_false(const S& v) { return v.size()==5 && x_up(v,0,'F') && x_up(v,1,'A') && x_up(v,2,'L') && x_up(v,3,'S') && x_up(v,4,'E'); }
inline bool x_isbool(const S& v) { return x_true(v) || x_false(v); }
inline bool x_isint(const S& v) {
  const std::size_t i = v.size()>0 && v[0]=='-' ? 1 : 0;
  return v.size()>i && v.find_first_not_of("0123456789",i)==S::npos && !x_intfail(&v);
}
inline bool x_isdouble(const S& v) { return !x_numfail(&v) && x_numeof(&v); }
inline char x_kind(const S& v) { return x_isbool(v) ? 'b' : x_isint(v) ? 'i' : x_isdouble(v) ? 'd' : 's'; }
// a literal block keeps a text with exactly one newline at its end, and no space at the start of its first line
inline bool x_kept(const S& v) {
  const std::size_t n=v.size();
  if(n<2 || v[n-1]!='\n' || v[n-2]=='\n') return false;
  const std::size_t i=v.find_first_not_of('\n');
  return v[i]!=' ';
}

namespace std {
inline int x_stoi(const S& s) { if(x_intfail(&s)) ::die(); return x_toint(&s); }
inline double x_stod(const S& s) { if(x_numfail(&s) || x_subnormal(&s)) ::die(); return x_todouble(&s); }
struct x_istringstream {
  S t; bool bad=false, end=false;
  explicit x_istringstream(const S& s) : t(s) {}
  x_istringstream& operator>>(double& d) { bad=x_numfail(&t); end=x_numeof(&t); d = bad ? 0 : x_todouble(&t); return *this; }
  x_istringstream& operator>>(int& i) { bad=x_intfail(&t); end=x_inteof(&t); i = bad ? 0 : x_toint(&t); return *this; }
  bool fail() const { return bad; }
  bool eof() const { return end; }
  bool good() const { return !bad && !end; }
  explicit operator bool() const { return !bad; }
  bool operator!() const { return bad; }
};
struct x_stringstream {
  S t; bool point=false, alpha=false; int prec=6;
  x_stringstream() {}
  S str() const { return t; }
  int precision(int n) { int o=prec; prec=n; return o; }
  x_stringstream& operator<<(const S& s) { t+=s; return *this; }
  x_stringstream& operator<<(const char* s) { t+=s; return *this; }
  x_stringstream& operator<<(char c) { t+=c; return *this; }
  x_stringstream& operator<<(int i) { x_puti(&t,i); return *this; }
  x_stringstream& operator<<(long i) { x_puti(&t,i); return *this; }
  x_stringstream& operator<<(unsigned long i) { x_puti(&t,i); return *this; }
  x_stringstream& operator<<(bool b) { if(alpha) t += b ? S("true") : S("false"); else t += b ? '1' : '0'; return *this; }
  // 14 digits are promised (the texts here are shorter)
  x_stringstream& operator<<(double d) { if(prec<14) t+='#'; if(x_shown) t += point ? *x_shown : *x_plain; else x_putd(&t,d); return *this; }
  x_stringstream& operator<<(ios_base& (*f)(ios_base&)) { if(f==&std::showpoint) point=true; else if(f==&std::noshowpoint) point=false; else if(f==&std::boolalpha) alpha=true; else if(f==&std::noboolalpha) alpha=false; else t+='?'; return *this; }
  x_stringstream& operator<<(_Setprecision p) { prec=p._M_n; return *this; }
};
struct x_ofstream {
  S name; bool was=false;
  x_ofstream() {}
  explicit x_ofstream(const S& f) { open(f); }
  void open(const S& f) { name=f; was=true; x_log(f); }
  bool is_open() const { return was && x_isopen(&name); }
  bool good() const { return is_open(); }
  explicit operator bool() const { return is_open(); }
  bool operator!() const { return !is_open(); }
  void close() {}
  x_ofstream& flush() { return *this; }
  x_ofstream& operator<<(const S& s) { *x_out+=s; return *this; }
  x_ofstream& operator<<(const char* s) { *x_out+=s; return *this; }
  x_ofstream& operator<<(char c) { *x_out+=c; return *this; }
  x_ofstream& operator<<(x_text s) { *x_out+=*s.s; return *this; }
  x_ofstream& operator<<(ostream& (*)(ostream&)) { *x_out+='\n'; return *this; }
};
// a vector of up to three entries
template<class T> struct x_store { T s[3]; x_store() : s() {} T* at() { return s; } const T* at() const { return s; } };
template<> struct x_store<S> { S* s; x_store() { s=x_take(); x_take(); x_take(); } ~x_store() { x_n-=3; } S* at() { return s; } const S* at() const { return s; } };
template<class T> struct x_vector {
  using value_type=T; using iterator=T*; using const_iterator=const T*; using size_type=std::size_t; using reference=T&; using const_reference=const T&;
  x_store<T> d; std::size_t n=0;
  x_vector() {}
  explicit x_vector(std::size_t k) : n(k) { if(k>3) ::die(); }
  x_vector(std::size_t k, const T& v) : n(k) { if(k>3) ::die(); for(std::size_t i=0; i<k; ++i) d.at()[i]=v; }
  x_vector(const x_vector& o) : n(o.n) { for(std::size_t i=0; i<n; ++i) d.at()[i]=o[i]; }
  x_vector& operator=(const x_vector& o) { n=o.n; for(std::size_t i=0; i<n; ++i) d.at()[i]=o[i]; return *this; }
  void push_back(const T& v) { if(n==3) ::die(); d.at()[n++]=v; }
  template<class... A> T& emplace_back(A&&... a) { push_back(T(a...)); return back(); }
  void reserve(std::size_t) {}
  void resize(std::size_t k) { if(k>3) ::die(); n=k; }
  void clear() { n=0; }
  std::size_t size() const { return n; } bool empty() const { return n==0; }
  T& operator[](std::size_t i) { return d.at()[i]; } const T& operator[](std::size_t i) const { return d.at()[i]; }
  T& at(std::size_t i) { if(i>=n) ::die(); return d.at()[i]; } const T& at(std::size_t i) const { if(i>=n) ::die(); return d.at()[i]; }
  T& back() { return d.at()[n-1]; } T& front() { return d.at()[0]; }
  T* data() { return d.at(); } const T* data() const { return d.at(); }
  T* begin() { return d.at(); } T* end() { return d.at()+n; } const T* begin() const { return d.at(); } const T* end() const { return d.at()+n; }
};
}
namespace ekat { class ParameterList; }
struct x_slot { const char* key; char kind; const void* v; const x_slot* sub; int n; };
namespace ekat {
class ParameterList {
public:
  struct EmptySeq {};
  S* nm; S* log; ParameterList* kid; ParameterList* next;
  const x_slot* slots; int ns;    // what a list to be written holds
  ParameterList() : nm(x_take()), log(x_take()), kid(nullptr), next(nullptr), slots(nullptr), ns(0) {}
  explicit ParameterList(const S& n) : ParameterList() { *nm=n; }
  ParameterList(const x_slot* s, int n) : nm(nullptr), log(nullptr), kid(nullptr), next(nullptr), slots(s), ns(n) {}
  ParameterList(const ParameterList& o) : ParameterList() { *this=o; }
  ParameterList& operator=(const ParameterList& o) { *nm=*o.nm; *log=*o.log; kid=o.kid; return *this; }
  const S& name() const { return *nm; }
  void rename(const S& n) { *nm=n; }
  void import(const ParameterList& o) { *log+=*o.log; if(!kid) kid=o.kid; }
  inline ParameterList& sublist(const S& n);
  inline ParameterList sublist(const S& n) const;
  void put(int v) { *log+='i'; x_puti(log,v); }
  void put(bool v) { *log+='b'; *log += v ? 't' : 'f'; }
  void put(double v) { *log+='d'; x_putd(log,v); }
  void put(char v) { *log+='c'; x_puti(log,v); }
  void put(const S& v) { *log+='s'; *log+=v; }
  void put(const EmptySeq&) { *log+='E'; }
  template<class T> void put(const std::x_vector<T>& v) { *log+='['; for(const auto& x : v) { put(x); *log+=','; } *log+=']'; }
  template<class T> void set(const S& n, const T& v) { *log+='.'; *log+=n; *log+='='; put(v); *log+=';'; }
  const x_slot* at(const S& n) const { for(int i=0; i<ns; ++i) if(slots[i].kind!='L' && n==slots[i].key) return slots+i; return nullptr; }
  bool isParameter(const S& n) const { return at(n)!=nullptr; }
  bool isSublist(const S& n) const { for(int i=0; i<ns; ++i) if(slots[i].kind=='L' && n==slots[i].key) return true; return false; }
  static constexpr char code(int*) { return 'i'; } static constexpr char code(bool*) { return 'b'; } static constexpr char code(double*) { return 'd'; } static constexpr char code(char*) { return 'c'; } static constexpr char code(S*) { return 's'; } static constexpr char code(EmptySeq*) { return 'E'; }
  template<class T> static constexpr char code(std::x_vector<T>*) { return code((T*)0)-32; }
  template<class T> bool isType(const S& n) const { auto* s=at(n); if(!s) die(); return s->kind==code((T*)0); }
  template<class T> const T& get(const S& n) const { auto* s=at(n); if(!s || s->kind!=code((T*)0)) die(); return *(const T*)s->v; }
  template<class T> T& get(const S& n) { static T t; return t; }
  std::x_vector<S> param_names() const { std::x_vector<S> r; for(int i=0; i<ns; ++i) if(slots[i].kind!='L') r.push_back(slots[i].key); return r; }
  std::x_vector<S> sublist_names() const { std::x_vector<S> r; for(int i=0; i<ns; ++i) if(slots[i].kind=='L') r.push_back(slots[i].key); return r; }
  template<int D=0> void x_dump(S& o) const { o+='{'; o+=*log; if constexpr (D<3) { auto* k=kid; for(int i=0; i<2; ++i) if(k) { o+=*k->nm; o+=':'; k->template x_dump<D+1>(o); k=k->next; } } o+='}'; }
};
// lists that parsing creates
alignas(ParameterList) static char x_pool[4*sizeof(ParameterList)]; static int x_used;
inline ParameterList& ParameterList::sublist(const S& n) {
  if(kid && *kid->nm==n) return *kid;
  if(kid && kid->next && *kid->next->nm==n) return *kid->next;
  auto* p = ::new((void*)(x_pool+sizeof(ParameterList)*x_used)) ParameterList((const x_slot*)nullptr,0);
  // (they stay: their strings are the last ones)
  p->nm = ::new((void*)x_str(23-2*x_used)) S(n); p->log = ::new((void*)x_str(22-2*x_used)) S(); ++x_used;
  p->next=kid; kid=p; return *p;
}
inline ParameterList ParameterList::sublist(const S& n) const { for(int i=0; i<ns; ++i) if(slots[i].kind=='L' && n==slots[i].key) return ParameterList(slots[i].sub,slots[i].n); die(); return ParameterList((const x_slot*)nullptr,0); }
}
namespace YAML { struct x_Node; }
static const YAML::x_Node* x_root;
#include "yaml-cpp/yaml.h"
#include "ekat_string_utils.cpp"
#define vector x_vector
#define istringstream x_istringstream
#define stringstream x_stringstream
#define ostringstream x_stringstream
#define ofstream x_ofstream
#define stoi x_stoi
#define stod x_stod
#include "ekat_yaml.cpp"
namespace {
using PL=ekat::ParameterList; using YNT=YAML::NodeType; using XN=YAML::x_Node;
// texts of a document: given characters, or a literal
alignas(S) char x_in[8*sizeof(S)];
#define IN(i) ((const S*)(x_in+(i)*sizeof(S)))
inline const S& in(int i, char* a, size_t n) { auto* s=(S*)(x_in+i*sizeof(S)); s->_M_dataplus._M_p=a; s->_M_string_length=n; return *s; }
inline const S& in(int i, const char* t) { return *::new((void*)(x_in+i*sizeof(S))) S(t); }
inline void start() { x_n=0; ekat::x_used=0; x_out=nullptr; x_shown=nullptr; }
inline void dump(const PL& q, S* r) { ::new(r) S(q.name()); if(x_out) *r+=*x_out; else *r+="@f:"; q.x_dump(*r); }
inline void load(const XN* n, S* r) { start(); x_out=x_take(); x_root=n; PL q(S("l")); q.set<int>(S("o"),1); ekat::parse_yaml_file(S("f"),q); dump(q,r); }
inline void load1(const XN* n, S* r) { start(); x_out=x_take(); x_root=n; PL q(ekat::parse_yaml_file(S("f"))); dump(q,r); }
inline void save(const x_slot* s, int n, S* r, bool num=false) { start(); x_out=x_take(); if(num) { x_shown=(S*)IN(5); x_plain=(S*)IN(6); } PL q(s,n); ekat::write_yaml_file(S("f"),q); ::new(r) S(*x_out); }
inline void head(S* r) { start(); ::new(r) S("@f:%YAML 1.2\n---\n{"); const S f("f"); if(!x_isopen(&f)) die(); }
inline void foot(S* r) { *r+="}\n...\n"; }
inline void key(S* r, const char* n) { *r+='K'; *r+=n; *r+='V'; }
// the decimals of a number up to the last one that is not 0 (one at least), and its exponent
inline void shown(S* r, const char* h, const char* d, int n, const char* e) { *r+=h; *r+='.'; int l=1; for(int i=1; i<n; ++i) if(d[i]!='0') l=i+1; for(int i=0; i<n; ++i) if(i<l) *r+=d[i]; *r+=e; }
inline void shape(S* s, const char* h, const char* d, int n, const char* e, bool point) { ::new(s) S(h); int l=0; for(int i=0; i<n; ++i) if(point || d[i]!='0') l=i+1; if(l>0) *s+='.'; for(int i=0; i<n; ++i) if(i<l) *s+=d[i]; *s+=e; }
}
