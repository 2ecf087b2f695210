// Stand-in for yaml-cpp: a document is a tree of plain structures, and what is
// emitted is a text in which every scalar says what a reader takes it for.
#ifndef X_YAML_H
#define X_YAML_H
namespace YAML {
struct Exception : std::runtime_error { Exception() : std::runtime_error("") {} };
struct BadFile : Exception {};
struct ParserException : Exception {};
struct NodeType { enum value { Undefined, Null, Scalar, Sequence, Map }; };
struct x_Node { NodeType::value type; const S* tag; const S* val; const x_Node* kids; int n; const char* key; };
class Node {
public:
  const x_Node* p;
  Node() : p(nullptr) {}
  explicit Node(const x_Node* q) : p(q) {}
  NodeType::value Type() const { return p->type; }
  bool IsDefined() const { return p->type!=NodeType::Undefined; }
  bool IsNull() const { return p->type==NodeType::Null; }
  bool IsScalar() const { return p->type==NodeType::Scalar; }
  bool IsSequence() const { return p->type==NodeType::Sequence; }
  bool IsMap() const { return p->type==NodeType::Map; }
  const S& Tag() const { return *p->tag; }
  const S& Scalar() const { return *p->val; }
  template<class T> T as() const { static_assert(std::is_same<T,S>::value,"only as strings"); if(p->type!=NodeType::Scalar) die(); return p->val ? *p->val : S(p->key); }
  std::size_t size() const { return p->n; }
  Node operator[](std::size_t i) const { return Node(p->kids+i); }
  struct value;
  struct const_iterator;
  inline const_iterator begin() const;
  inline const_iterator end() const;
};
// the key of an entry is a scalar of its own
struct Node::value : Node { Node first, second; x_Node own; value(const x_Node* q) : Node(q), first(), second(q), own{NodeType::Scalar,nullptr,nullptr,nullptr,0,q->key} { first.p=&own; } value(const value& v) : Node(v.p), first(), second(v.second), own(v.own) { first.p=&own; } };
struct Node::const_iterator { const x_Node* q; value operator*() const { return value(q); } const_iterator& operator++() { ++q; return *this; } const_iterator operator++(int) { auto c=*this; ++q; return c; } bool operator!=(const const_iterator& o) const { return q!=o.q; } bool operator==(const const_iterator& o) const { return q==o.q; }
  struct arrow { value v; value* operator->() { return &v; } }; arrow operator->() const { return arrow{value(q)}; } };
inline Node::const_iterator Node::begin() const { return const_iterator{p->kids}; }
inline Node::const_iterator Node::end() const { return const_iterator{p->kids+p->n}; }
using const_iterator = Node::const_iterator;
using iterator = Node::const_iterator;
inline Node LoadFile(const S& f) { x_log(f); return Node(x_root); }

enum EMITTER_MANIP { Auto, TagByKind, Newline, EmitNonAscii, EscapeNonAscii, EscapeAsJson, SingleQuoted, DoubleQuoted, Literal, LowerNull, UpperNull, CamelNull, TildeNull, YesNoBool, TrueFalseBool, OnOffBool, UpperCase, LowerCase, CamelCase, LongBool, ShortBool, Dec, Hex, Oct, BeginDoc, EndDoc, BeginSeq, EndSeq, Flow, Block, BeginMap, EndMap, Key, Value, LongKey };
class Emitter {
public:
  S* log; Emitter() : log(x_take()) {} ~Emitter() { --x_n; }
  int seq=0; bool quoted=false, literal=false, key=false;
  Emitter& operator<<(EMITTER_MANIP m) {
    if(m==BeginMap) *log+='{'; else if(m==EndMap) *log+='}'; else if(m==BeginSeq) { *log+='['; ++seq; } else if(m==EndSeq) { *log+=']'; --seq; }
    else if(m==Key || m==LongKey) { *log+='K'; key=true; } else if(m==Value) *log+='V';
    else if(m==SingleQuoted || m==DoubleQuoted) quoted=true; else if(m==Literal) literal=true;
    return *this;
  }
  Emitter& operator<<(const S& v) {
    if(key) *log+=v;
    else {
      // (a literal block keeps the text up to its last newline, of which there must be one; leading spaces are indentation)
      char k = '.';
      if(!seq) k = quoted ? 's' : literal ? (x_kept(v) ? 's' : 'X') : x_kind(v);
      *log+='<'; *log+=k; *log+=v; *log+='>';
    }
    key=false; quoted=false; literal=false;
    return *this;
  }
  Emitter& operator<<(const char* v) { return *this << S(v); }
  char as(char k) { key=quoted=literal=false; *log+='<'; *log+=(seq ? '.' : k); return 0; }
  Emitter& operator<<(int v) { as('i'); x_puti(log,v); *log+='>'; return *this; }
  Emitter& operator<<(bool v) { as('b'); *log += v ? S("true") : S("false"); *log+='>'; return *this; }
  Emitter& operator<<(double v) { as('d'); x_putd(log,v); *log+='>'; return *this; }
  Emitter& operator<<(char v) { return *this << S(1,v); }
  x_text c_str() const { return x_text{log}; }
  std::size_t size() const { return log->size(); }
  bool good() const { return true; }
};
}
#endif
