// Common part of the harnesses: random inputs, reports of the monitors on stdout.
// lines: FAIL\tkey\ttext | STAT\tkey\tnumber | SIG\tsignature of a distinct case | SAMPLE\ttext
#ifndef VH_HPP
#define VH_HPP
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <cmath>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <mutex>
#include <algorithm>
namespace vh {
  struct Rng {
    uint64_t s;
    explicit Rng( uint64_t i=1 ): s(i*0x9E3779B97F4A7C15ull+0x1234567) { for( int k = 0; k < 4; k++ ) u64(); }
    uint64_t u64() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z^(z>>30))*0xBF58476D1CE4E5B9ull; z = (z^(z>>27))*0x94D049BB133111EBull; return z^(z>>31); }
    // [a,b]
    long i( long a, long b ) { return a + (long)(u64() % (uint64_t)(b-a+1)); }
    double r( double a=0, double b=1 ) { return a + (b-a)*((u64()>>11)*(1.0/9007199254740992.0)); }
    bool p( double c ) { return r() < c; }
    template<class T> T const & pick( std::vector<T> const & v ) { return v[i(0,(long)v.size()-1)]; }
    double n() { double u = r(1e-12,1), v = r(); return std::sqrt(-2*std::log(u))*std::cos(6.283185307179586*v); }
    // magnitudes over several decades, with sign
    double wild( int lo=-3, int hi=3 ) { return (p(0.5)?1:-1)*std::pow(10.0, r(lo,hi)); }
    template<class T> void shuffle( std::vector<T> & v ) { for( std::size_t k = v.size(); k > 1; k-- ) { long j = i(0,(long)k-1); T t = std::move( v[k-1] ); v[k-1] = std::move( v[j] ); v[j] = std::move( t ); } }
  };
  inline std::mutex & mtx() { static std::mutex m; return m; }
  inline std::map<std::string,int> & nFail() { static std::map<std::string,int> m; return m; }
  inline std::map<std::string,double> & stats() { static std::map<std::string,double> m; return m; }
  inline std::set<std::string> & sigs() { static std::set<std::string> m; return m; }
  inline int & samples() { static int n = 0; return n; }
  inline std::string fmt( char const * f, ... ) { char b[4096]; va_list a; va_start(a,f); vsnprintf(b,sizeof b,f,a); va_end(a); return b; }
  // at most three reports per key
  inline void fail( std::string const & key, std::string const & text ) {
    std::lock_guard<std::mutex> l(mtx());
    if( nFail()[key]++ < 3 ) { std::string t = text; for( auto & c: t ) if( c == '\n' ) c = ' '; printf("FAIL\t%s\t%s\n", key.c_str(), t.c_str()); fflush(stdout); }
  }
  inline bool check( bool ok, std::string const & key, char const * f, ... ) {
    if( ok ) return true;
    char b[4096]; va_list a; va_start(a,f); vsnprintf(b,sizeof b,f,a); va_end(a);
    fail( key, b ); return false;
  }
  inline void stat( std::string const & k, double n=1 ) { std::lock_guard<std::mutex> l(mtx()); stats()[k] += n; }
  inline void sig( std::string const & s ) { std::lock_guard<std::mutex> l(mtx()); if( sigs().size() < 200000 ) sigs().insert(s); }
  inline void sample( std::string const & s ) { std::lock_guard<std::mutex> l(mtx()); if( samples()++ < 6 ) printf("SAMPLE\t%s\n", s.c_str()); }
  inline int done() {
    for( auto & k: stats() ) printf("STAT\t%s\t%.0f\n", k.first.c_str(), k.second);
    for( auto & s: sigs() ) printf("SIG\t%s\n", s.c_str());
    printf("HARNESS-DONE\n"); fflush(stdout);
    return 0;
  }
  // |a-b| <= tol*scale, false for NaN
  inline bool near( double a, double b, double tol, double scale=1 ) { return std::fabs(a-b) <= tol*std::max(std::fabs(scale),1e-300); }
  inline bool rel( double a, double b, double tol ) { return std::fabs(a-b) <= tol*(1e-300+std::max(std::fabs(a),std::fabs(b))); }
}
// use: VH_MAIN { ... uses seed, n ... }
#define VH_MAIN static void vhRun( uint64_t seed, long n ); \
  int main( int argc, char **argv ) { setvbuf(stdout,0,_IOLBF,1<<16); vhRun( argc>1?strtoull(argv[1],0,10):1, argc>2?atol(argv[2]):100 ); return vh::done(); } \
  static void vhRun( uint64_t seed, long n )
#endif
