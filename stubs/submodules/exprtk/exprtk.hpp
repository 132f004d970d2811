// Stand-in for the (absent) ExprTk submodule: a small expression evaluator offering the API subset EDGE and EDGE-V use.
// Supported: numbers, bound variables/vectors (v[expr]), := assignments, ';' sequences, if(c,a,b), if(c){..}else{..},
// arithmetic (+ - * / ^ %), comparisons (< <= > >= == = != <>), and/or/not/&/|, common functions, pi, epsilon, inf.
#ifndef VERIF_EXPRTK_STUB_HPP
#define VERIF_EXPRTK_STUB_HPP
#include <cctype>
#include <cmath>
#include <cstdlib>
#include <limits>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>
namespace exprtk {
  namespace parser_error {
    enum error_mode { e_unknown = 0, e_syntax = 1 };
    struct tok { std::size_t position = 0; };
    struct type { tok token; error_mode mode = e_syntax; std::string diagnostic; };
    inline std::string to_str( error_mode ) { return "Syntax Error"; }
  }
  namespace detail {
    inline std::string lower( std::string s ) { for( char & c : s ) c = char( std::tolower( (unsigned char) c ) ); return s; }
    template< typename T > struct store {
      std::map< std::string, T* > vars; std::map< std::string, std::pair< T*, std::size_t > > vecs; std::map< std::string, T > consts;
    };
    template< typename T > struct node { virtual ~node() {} virtual T eval() const = 0; virtual T* ref() const { return nullptr; } };
    template< typename T > using np = std::shared_ptr< node<T> >;
    template< typename T > struct nConst : node<T> { T v; explicit nConst( T x ) : v(x) {} T eval() const override { return v; } };
    template< typename T > struct nVar : node<T> { T *p; explicit nVar( T*x ) : p(x) {} T eval() const override { return *p; } T* ref() const override { return p; } };
    template< typename T > struct nVec : node<T> { T *p; std::size_t n; np<T> i;
      T* ref() const override { long k = long( i->eval() ); if( k < 0 || std::size_t(k) >= n ) throw std::runtime_error("vector index"); return p+k; }
      T eval() const override { return *ref(); } };
    // whole vector: assigning a scalar sets all entries
    template< typename T > struct nAll : node<T> { T *p; std::size_t n; T* ref() const override { return p; } T eval() const override { return *p; } };
    template< typename T > struct nOp : node<T> { std::string o; std::vector< np<T> > a;
      T eval() const override {
        if( o == ":=" ) { T v = a[1]->eval(); if( nAll<T> * l = dynamic_cast< nAll<T>* >( a[0].get() ) ) { for( std::size_t i = 0; i < l->n; i++ ) l->p[i] = v; return v; } *a[0]->ref() = v; return v; }
        if( o == "+=" ) { T v = a[1]->eval(); return *a[0]->ref() += v; }
        if( o == "-=" ) { T v = a[1]->eval(); return *a[0]->ref() -= v; }
        if( o == "*=" ) { T v = a[1]->eval(); return *a[0]->ref() *= v; }
        if( o == "/=" ) { T v = a[1]->eval(); return *a[0]->ref() /= v; }
        if( o == "seq" ) { T v = 0; for( auto & x : a ) v = x->eval(); return v; }
        if( o == "if" ) { if( a[0]->eval() != T(0) ) return a[1]->eval(); return a.size() > 2 ? a[2]->eval() : std::numeric_limits<T>::quiet_NaN(); }
        if( o == "and" ) return ( a[0]->eval() != T(0) && a[1]->eval() != T(0) ) ? T(1) : T(0);
        if( o == "or" ) return ( a[0]->eval() != T(0) || a[1]->eval() != T(0) ) ? T(1) : T(0);
        T x = a[0]->eval();
        if( o == "neg" ) return -x;
        if( o == "not" ) return x == T(0) ? T(1) : T(0);
        if( o == "sin" ) return std::sin(x);
        if( o == "cos" ) return std::cos(x);
        if( o == "tan" ) return std::tan(x);
        if( o == "exp" ) return std::exp(x);
        if( o == "log" ) return std::log(x);
        if( o == "sqrt" ) return std::sqrt(x);
        if( o == "abs" ) return std::abs(x);
        if( o == "floor" ) return std::floor(x);
        if( o == "ceil" ) return std::ceil(x);
        T y = a.size() > 1 ? a[1]->eval() : T(0);
        if( o == "+" ) return x+y;
        if( o == "-" ) return x-y;
        if( o == "*" ) return x*y;
        if( o == "/" ) return x/y;
        if( o == "%" ) return std::fmod(x,y);
        if( o == "^" || o == "pow" ) return std::pow(x,y);
        if( o == "<" ) return x < y;
        if( o == "<=" ) return x <= y;
        if( o == ">" ) return x > y;
        if( o == ">=" ) return x >= y;
        if( o == "==" || o == "=" ) return x == y;
        if( o == "!=" || o == "<>" ) return x != y;
        if( o == "min" ) { T r = x; for( auto & n : a ) r = std::min( r, n->eval() ); return r; }
        if( o == "max" ) { T r = x; for( auto & n : a ) r = std::max( r, n->eval() ); return r; }
        throw std::runtime_error( "op " + o );
      } };
  }
  template< typename T > class symbol_table {
    public:
      std::shared_ptr< detail::store<T> > m_s = std::make_shared< detail::store<T> >();
      bool add_variable( std::string const & n, T & v ) { std::string l = detail::lower(n); if( m_s->vars.count(l) || m_s->vecs.count(l) ) return false; m_s->vars[l] = &v; return true; }
      bool add_vector( std::string const & n, T * v, std::size_t s ) { std::string l = detail::lower(n); if( m_s->vars.count(l) || m_s->vecs.count(l) || s == 0 ) return false; m_s->vecs[l] = std::make_pair(v,s); return true; }
      bool add_constants() { if( m_s->consts.size() ) return false; m_s->consts["pi"] = T(3.141592653589793238462643383279502); m_s->consts["epsilon"] = T(1E-10); m_s->consts["inf"] = std::numeric_limits<T>::infinity(); return true; }
  };
  template< typename T > class expression {
    public:
      std::shared_ptr< detail::store<T> > m_s; detail::np<T> m_root;
      void register_symbol_table( symbol_table<T> & t ) { m_s = t.m_s; }
      T value() const { return m_root ? m_root->eval() : std::numeric_limits<T>::quiet_NaN(); }
  };
  template< typename T > class parser {
    std::string m_str; std::size_t m_pos = 0; detail::store<T> * m_s = nullptr; std::vector< parser_error::type > m_errs;
    typedef detail::np<T> N;
    N op( std::string const & o, std::vector<N> a ) { auto n = std::make_shared< detail::nOp<T> >(); n->o = o; n->a = a; return n; }
    [[noreturn]] void fail( std::string const & m ) { throw std::runtime_error( m ); }
    void ws() { for(;;) { while( m_pos < m_str.size() && std::isspace( (unsigned char) m_str[m_pos] ) ) m_pos++;
                 if( m_str.compare( m_pos, 2, "//" ) == 0 || ( m_pos < m_str.size() && m_str[m_pos] == '#' ) ) { while( m_pos < m_str.size() && m_str[m_pos] != '\n' ) m_pos++; } else break; } }
    bool eat( std::string const & t ) { ws(); if( m_str.compare( m_pos, t.size(), t ) == 0 ) { m_pos += t.size(); return true; } return false; }
    bool peek( std::string const & t ) { ws(); return m_str.compare( m_pos, t.size(), t ) == 0; }
    std::string peekWord() { ws(); std::size_t e = m_pos; while( e < m_str.size() && ( std::isalnum( (unsigned char) m_str[e] ) || m_str[e] == '_' ) ) e++; return detail::lower( m_str.substr( m_pos, e-m_pos ) ); }
    bool word( std::string const & w ) { if( peekWord() == w ) { ws(); m_pos += w.size(); return true; } return false; }
    void need( std::string const & t ) { if( !eat(t) ) fail( "expected '" + t + "'" ); }
    N seq( bool brace ) {
      std::vector<N> l;
      for(;;) {
        while( eat(";") ) {}
        ws();
        if( m_pos >= m_str.size() ) { if( brace ) fail("unterminated block"); break; }
        if( brace && peek("}") ) break;
        N s = stmt(); l.push_back( s );
        ws();
        bool semi = eat(";");
        if( !semi && !( m_pos >= m_str.size() || ( brace && peek("}") ) ) && m_str[m_pos-1] != '}' ) fail( "expected ';'" );
      }
      return op( "seq", l );
    }
    N block() { if( eat("{") ) { N s = seq( true ); need("}"); return s; } N s = stmt(); return s; }
    N stmt() {
      std::size_t save = m_pos; (void) save;
      if( peekWord() == "if" ) return ifs();
      N l = lor();
      for( char const * o : { ":=", "+=", "-=", "*=", "/=" } ) if( eat(o) ) { if( dynamic_cast< detail::nConst<T>* >( l.get() ) || dynamic_cast< detail::nOp<T>* >( l.get() ) ) fail("assignment to non-variable"); N r = stmt(); return op( o, {l,r} ); }
      return l;
    }
    N ifs() {
      word("if"); need("("); N c = stmt();
      if( eat(",") ) { N a = stmt(); need(","); N b = stmt(); need(")"); return op( "if", {c,a,b} ); }
      need(")"); N a = block(); std::size_t p = m_pos; bool semi = eat(";");
      if( word("else") ) { N b = peekWord() == "if" ? ifs() : block(); return op( "if", {c,a,b} ); }
      if( semi ) m_pos = p;
      return op( "if", {c,a} );
    }
    N lor() { N l = land(); while( word("or") || eat("|") ) { N r = land(); l = op( "or", {l,r} ); } return l; }
    N land() { N l = cmp(); while( word("and") || eat("&") ) { N r = cmp(); l = op( "and", {l,r} ); } return l; }
    N cmp() { N l = add(); for(;;) { bool f = false; for( char const * o : { "<=", ">=", "==", "!=", "<>", "<", ">", "=" } ) if( eat(o) ) { N r = add(); l = op( o, {l,r} ); f = true; break; } if( !f ) return l; } }
    N add() { N l = mul(); for(;;) { if( peek("+=") || peek("-=") ) return l; if( eat("+") ) { N r = mul(); l = op( "+", {l,r} ); } else if( eat("-") ) { N r = mul(); l = op( "-", {l,r} ); } else return l; } }
    N mul() { N l = una(); for(;;) { if( peek("*=") || peek("/=") ) return l; if( eat("*") ) { N r = una(); l = op( "*", {l,r} ); } else if( eat("/") ) { N r = una(); l = op( "/", {l,r} ); } else if( eat("%") ) { N r = una(); l = op( "%", {l,r} ); } else return l; } }
    N una() { if( eat("-") ) return op( "neg", { una() } ); if( eat("+") ) return una(); if( word("not") ) return op( "not", { una() } ); return pw(); }
    N pw() { N l = prim(); if( eat("^") ) { N r = una(); return op( "^", {l,r} ); } return l; }
    N prim() {
      ws(); if( m_pos >= m_str.size() ) fail("unexpected end");
      if( eat("(") ) { N e = stmt(); need(")"); return e; }
      char c = m_str[m_pos];
      if( std::isdigit( (unsigned char) c ) || c == '.' ) { char * e; double v = std::strtod( m_str.c_str()+m_pos, &e ); m_pos = e - m_str.c_str(); return std::make_shared< detail::nConst<T> >( T(v) ); }
      std::string w = peekWord(); if( w.empty() ) fail( std::string("unexpected '") + c + "'" );
      if( w == "if" ) return ifs();
      m_pos += w.size();
      if( w == "true" ) return std::make_shared< detail::nConst<T> >( T(1) );
      if( w == "false" ) return std::make_shared< detail::nConst<T> >( T(0) );
      if( m_s->vecs.count(w) ) { if( !eat("[") ) { auto n = std::make_shared< detail::nAll<T> >(); n->p = m_s->vecs[w].first; n->n = m_s->vecs[w].second; return n; } auto n = std::make_shared< detail::nVec<T> >(); n->p = m_s->vecs[w].first; n->n = m_s->vecs[w].second; n->i = stmt(); need("]"); return n; }
      if( m_s->vars.count(w) ) return std::make_shared< detail::nVar<T> >( m_s->vars[w] );
      if( m_s->consts.count(w) ) return std::make_shared< detail::nConst<T> >( m_s->consts[w] );
      for( char const * f : { "sin","cos","tan","exp","log","sqrt","abs","floor","ceil","pow","min","max" } ) if( w == f ) {
        need("("); std::vector<N> a; do { a.push_back( stmt() ); } while( eat(",") ); need(")"); return op( f, a ); }
      fail( "undefined symbol: " + w );
    }
    public:
      bool compile( std::string const & s, expression<T> & e ) {
        m_errs.clear(); m_str = s; m_pos = 0; m_s = e.m_s.get();
        try { N r = seq( false ); e.m_root = r; return true; }
        catch( std::exception const & x ) { parser_error::type t; t.token.position = m_pos; t.diagnostic = x.what(); m_errs.push_back( t ); return false; }
      }
      std::size_t error_count() const { return m_errs.size(); }
      parser_error::type get_error( std::size_t i ) const { return m_errs[i]; }
  };
}
#endif
