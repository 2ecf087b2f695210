// Stand-in for spdlog: sinks and loggers are plain structures.
#ifndef VERIF_SPDLOG
#define VERIF_SPDLOG
#include <string>
#include <memory>
#include <initializer_list>
#include <utility>
namespace spdlog {
namespace level { enum level_enum : int { trace=0, debug=1, info=2, warn=3, err=4, critical=5, off=6, n_levels }; }
enum { X_NULL=1, X_COLOR, X_BASIC, X_ROTATING, X_CONSOLE };
extern "C" void x_pattern(void* who, const std::string& p);
extern "C" void x_flush(void* who, int level);
namespace sinks {
struct sink {
  int x_lev=level::trace, x_kind; std::string x_file; bool x_trunc=false, x_rot=false; unsigned long x_size=0, x_num=0;
  explicit sink(int k) : x_kind(k) {}
  sink(int k, const std::string& f) : x_kind(k), x_file(f) {}
  ~sink() {}
  void set_level(level::level_enum l) { x_lev=l; }
  level::level_enum level() const { return static_cast<level::level_enum>(x_lev); }
  bool should_log(level::level_enum l) const { return l>=x_lev; }
  void set_pattern(const std::string& p) { x_pattern(this,p); }
};
template<int K> struct x_null : sink { x_null() : sink(K) {} };
using null_sink_mt=x_null<X_NULL>; using null_sink_st=x_null<X_NULL+100>;
using stdout_color_sink_mt=x_null<X_COLOR>; using stdout_color_sink_st=x_null<X_COLOR+100>; using stderr_color_sink_mt=x_null<X_COLOR+200>;
using stdout_sink_mt=x_null<X_CONSOLE>;
template<int K> struct x_basic : sink { explicit x_basic(const std::string& f, bool t=false) : sink(K,f) { x_trunc=t; } };
using basic_file_sink_mt=x_basic<X_BASIC>; using basic_file_sink_st=x_basic<X_BASIC+100>;
template<int K> struct x_rotating : sink { x_rotating(const std::string& f, std::size_t s, std::size_t n, bool r=false) : sink(K,f) { x_size=s; x_num=n; x_rot=r; } };
using rotating_file_sink_mt=x_rotating<X_ROTATING>; using rotating_file_sink_st=x_rotating<X_ROTATING+100>;
}
using sink_ptr=std::shared_ptr<sinks::sink>;
struct x_list {
  sink_ptr v[4]; long n=0;
  x_list() {}
  x_list(std::initializer_list<sink_ptr> l) { for(auto& s : l) push_back(s); }
  void push_back(const sink_ptr& s) { v[n]=s; ++n; }
  void emplace_back(const sink_ptr& s) { push_back(s); }
  void clear() { n=0; }
  void resize(long k) { n=k; }
  void reserve(long) {}
  void assign(std::initializer_list<sink_ptr> l) { clear(); for(auto& s : l) push_back(s); }
  x_list& operator=(std::initializer_list<sink_ptr> l) { assign(l); return *this; }
  sink_ptr& operator[](long i) { return v[i]; }
  const sink_ptr& operator[](long i) const { return v[i]; }
  sink_ptr& front() { return v[0]; } sink_ptr& back() { return v[n-1]; }
  std::size_t size() const { return n; } bool empty() const { return n==0; }
  sink_ptr* begin() { return v; } sink_ptr* end() { return v+n; } const sink_ptr* begin() const { return v; } const sink_ptr* end() const { return v+n; }
};
class logger {
public:
  std::string x_name; x_list x_sinks; int x_lev=level::info;
  explicit logger(const std::string& n) : x_name(n) {}
  logger(const std::string& n, const sink_ptr& s) : x_name(n) { x_sinks.push_back(s); }
  logger(const std::string& n, std::initializer_list<sink_ptr> l) : x_name(n), x_sinks(l) {}
  ~logger() {}
  const std::string& name() const { return x_name; }
  x_list& sinks() { return x_sinks; }
  const x_list& sinks() const { return x_sinks; }
  void set_level(level::level_enum l) { x_lev=l; }
  level::level_enum level() const { return static_cast<level::level_enum>(x_lev); }
  bool should_log(level::level_enum l) const { return l>=x_lev; }
  void set_pattern(const std::string& p) { x_pattern(this,p); }
  void flush_on(level::level_enum l) { x_flush(this,l); }
};
}
#endif
