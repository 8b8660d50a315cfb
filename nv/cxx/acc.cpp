// Evaluates the vec<float> math functions of one configuration on whole ranges of arguments.
// stdin: "<mode> <function> <lo> <hi> <tol>" per line; bit patterns in hex, hi inclusive
//   rel, abs   error against the double-precision library function <= tol
//   odd, even  f(-x) == -f(x) / f(x), zeros of either sign equal, NaN equal NaN
//   nonneg     sign bit clear or NaN
//   hash       digest of all results
//   pow        number lo..hi of a fixed pseudo-random sequence of (x,y), relative error <= tol*(1+|y ln x|)
//   spow       same sequence, signed_pow(-x,y) == -signed_pow(x,y)
//   print      results
// argv[1]: seconds.  Work is done in chunks, evenly spread over the ranges.
#include "simd_math.hpp"
#include "simd_unary_arithmetic.hpp"
#include <atomic>
#include <chrono>
#include <cinttypes>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <mutex>
#include <string>
#include <thread>
#include <vector>
typedef nova::vec<float> V;
typedef uint32_t u32; typedef uint64_t u64;
static const int N = 64;
static float fb(u32 b){float f;memcpy(&f,&b,4);return f;}
static u32 bf(float f){u32 b;memcpy(&b,&f,4);return b;}
typedef void (*Fn)(const float*,float*);
typedef double (*Ref)(double);
#define F1(n) static void f_##n(const float*in,float*out){for(int i=0;i<N;i+=V::size){V v;v.load_aligned(in+i);v=n(v);v.store_aligned(out+i);}} static double r_##n(double x){return std::n(x);}
using namespace nova;
#ifndef ONLY_RECIPROCAL
F1(sin) F1(cos) F1(tan) F1(asin) F1(acos) F1(atan) F1(tanh) F1(log) F1(log2) F1(log10) F1(exp)
static void f_pow(const float*x,const float*y,float*out){for(int i=0;i<N;i+=V::size){V v,w;v.load_aligned(x+i);w.load_aligned(y+i);v=pow(v,w);v.store_aligned(out+i);}}
static void f_spow(const float*x,const float*y,float*out){for(int i=0;i<N;i+=V::size){V v,w;v.load_aligned(x+i);w.load_aligned(y+i);v=signed_pow(v,w);v.store_aligned(out+i);}}
#endif
static void f_reciprocal(const float*in,float*out){for(int i=0;i<N;i+=V::size){V v;v.load_aligned(in+i);v=reciprocal(v);v.store_aligned(out+i);}} static double r_reciprocal(double x){return 1.0/x;}
struct E{const char*n;Fn f;Ref r;};
static E T[]={
#ifndef ONLY_RECIPROCAL
{"sin",f_sin,r_sin},{"cos",f_cos,r_cos},{"tan",f_tan,r_tan},{"asin",f_asin,r_asin},{"acos",f_acos,r_acos},{"atan",f_atan,r_atan},{"tanh",f_tanh,r_tanh},{"log",f_log,r_log},{"log2",f_log2,r_log2},{"log10",f_log10,r_log10},{"exp",f_exp,r_exp},
#endif
{"reciprocal",f_reciprocal,r_reciprocal}};
struct Job{std::string mode,fn;u64 lo,hi;double tol;Fn f;Ref r; std::atomic<u64> done,bad; std::mutex m; double worst; u32 at,at2; u32 fat,fat2; float got; double want; std::vector<u64> h; std::string text;};
static u64 mix(u64 z){z+=0x9E3779B97F4A7C15ull;z=(z^(z>>30))*0xBF58476D1CE4E5B9ull;z=(z^(z>>27))*0x94D049BB133111EBull;return z^(z>>31);}
static const u64 CH=1u<<14;
static void chunk(Job&j,u64 c){
  u64 lo=j.lo+c*CH,hi=lo+CH-1;if(hi>j.hi)hi=j.hi;
  alignas(64) float in[N],out[N],ng[N],on[N],y[N];
  double w=-1;u32 at=0,at2=0;u64 bad=0;u32 fat=0,fat2=0;float got=0;double want=0;u64 hs=0;
  for(u64 b=lo;b<=hi;b+=N){
    int k=hi-b+1<(u64)N?(int)(hi-b+1):N;
    bool pw=j.mode=="pow"||j.mode=="spow";
    if(pw){
#ifndef ONLY_RECIPROCAL
      for(int i=0;i<N;i++){u64 r=mix(b+i+0x5851F42D4C957F2Dull*(j.tol>0));u32 e=1+(r>>32)%254;u32 m=r&0x7FFFFF;if((r>>23&7)==0)e=126+(r>>26&1);in[i]=fb(e<<23|m);
        double L=std::log((double)in[i]);u64 q=mix(r);double t=((double)(q>>11)/9007199254740992.0)*2-1;double z=t*(t<0?85.1:87.4);if(q&1)z*=z*z/8000;float yy=L!=0?(float)(z/L):(float)z;if(!(std::fabs(yy)<3e38f))yy=1.f;y[i]=yy;
        if(!(std::fabs(y[i]*L)<87.4)||y[i]*L<-85.1)y[i]=0.5f;ng[i]=-in[i];}
      if(j.mode=="pow"){f_pow(in,y,out);
        for(int i=0;i<k;i++){double x=in[i],r=std::pow(x,(double)y[i]);double q=std::fabs(out[i]-r)/std::fabs(r)/(1+std::fabs(y[i]*std::log(x)));if(!(q<=1e300))q=1e300;
          if(q>w){w=q;at=bf(in[i]);at2=bf(y[i]);}if(!(q<=j.tol)){if(!bad++){fat=bf(in[i]);fat2=bf(y[i]);got=out[i];want=r;}}}}
      else {f_spow(in,y,out);f_spow(ng,y,on);
        for(int i=0;i<k;i++)if(!(on[i]==-out[i]||(on[i]!=on[i]&&out[i]!=out[i])))if(!bad++){fat=bf(in[i]);fat2=bf(y[i]);got=on[i];want=-out[i];}}
#endif
    } else {
    for(int i=0;i<N;i++)in[i]=fb((u32)(i<k?b+i:b));
    j.f(in,out);
    if(j.mode=="rel"||j.mode=="abs"){bool rel=j.mode=="rel";
      for(int i=0;i<k;i++){double r=j.r((double)in[i]);double d=std::fabs(out[i]-r);
        if(rel)d=r==0?(d==0?0:1e300):d/std::fabs(r);
        if(!(d<=1e300))d=1e300;
        if(d>w){w=d;at=(u32)(b+i);}
        if(!(d<=j.tol)){if(!bad++){fat=(u32)(b+i);got=out[i];want=r;}}}
    } else if(j.mode=="odd"||j.mode=="even"){
      for(int i=0;i<N;i++)ng[i]=-in[i];
      j.f(ng,on);float s=j.mode=="odd"?-1.f:1.f;
      for(int i=0;i<k;i++)if(!(on[i]==s*out[i]||(on[i]!=on[i]&&out[i]!=out[i])))if(!bad++){fat=(u32)(b+i);got=on[i];want=s*out[i];}
    } else if(j.mode=="nonneg"){
      for(int i=0;i<k;i++)if((bf(out[i])>>31)&&out[i]==out[i])if(!bad++){fat=(u32)(b+i);got=out[i];want=0;}
    } else if(j.mode=="hash"){
      for(int i=0;i<k;i++){u32 o=bf(out[i]);if(out[i]!=out[i])o=0x7FC00000;if(o==0x80000000u)o=0;hs=mix(hs^o)+o;}
    } else if(j.mode=="print"){
      std::lock_guard<std::mutex> g(j.m);char t[64];for(int i=0;i<k;i++){snprintf(t,64," %08x:%08x",(u32)(b+i),bf(out[i]));j.text+=t;}
    }}
  }
  std::lock_guard<std::mutex> g(j.m);
  if(w>j.worst){j.worst=w;j.at=at;j.at2=at2;}
  if(bad){if(!j.bad){j.fat=fat;j.fat2=fat2;j.got=got;j.want=want;}j.bad+=bad;}
  if(j.mode=="hash")j.h[c]=hs;
  j.done+=hi-lo+1;
}
int main(int c,char**v){
  double lim=c>1?atof(v[1]):1e9;auto t0=std::chrono::steady_clock::now();
  std::vector<Job*> js;char mode[32],fn[32];unsigned long long lo,hi;double tol;
  while(scanf("%31s %31s %llx %llx %lf",mode,fn,&lo,&hi,&tol)==5){
    Job*j=new Job;j->mode=mode;j->fn=fn;j->lo=lo;j->hi=hi;j->tol=tol;j->f=0;j->r=0;j->done=0;j->bad=0;j->worst=-1;j->at=j->at2=j->fat=j->fat2=0;
    for(E&e:T)if(j->fn==e.n){j->f=e.f;j->r=e.r;}
    u64 n=(hi-lo)/CH+1;if(j->mode=="hash")j->h.resize(n);js.push_back(j);}
  // chunk order: stride the golden ratio through every range, all jobs in step
  struct W{Job*j;u64 n,next,step;};std::vector<W> ws;u64 rounds=0;
  for(Job*j:js){W w;w.j=j;w.n=(j->hi-j->lo)/CH+1;w.next=0;u64 s=(u64)(w.n*0.6180339887498949)|1;auto gcd=[](u64 a,u64 b){while(b){u64 t=a%b;a=b;b=t;}return a;};while(w.n>1&&gcd(s%w.n?s%w.n:1,w.n)!=1)s++;w.step=w.n>1?s%w.n:0;ws.push_back(w);if(w.n>rounds)rounds=w.n;}
  u64 total=0;for(W&w:ws)total+=w.n;
  // item k of a job is handled at time k/n
  std::mutex m;std::vector<double> pos(ws.size(),0);u64 given=0;bool stop=false;
  struct It{size_t w;u64 c;};
  auto get=[&](It&it)->bool{std::lock_guard<std::mutex> g(m);if(stop||given>=total)return false;
    if((given&63)==0&&std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count()>lim){stop=true;return false;}
    size_t best=ws.size();double bp=2;for(size_t i=0;i<ws.size();i++)if(ws[i].next<ws[i].n){double p=(double)ws[i].next/ws[i].n;if(p<bp){bp=p;best=i;}}
    W&w=ws[best];it.w=best;it.c=(u64)((unsigned __int128)w.next*w.step%w.n);w.next++;given++;return true;};
  unsigned nt=std::thread::hardware_concurrency();if(nt<1)nt=1;if(nt>8)nt=8;
  std::vector<std::thread> th;
  for(unsigned t=0;t<nt;t++)th.emplace_back([&]{It it;while(get(it))chunk(*ws[it.w].j,it.c);});
  for(auto&t:th)t.join();
  for(Job*j:js){
    printf("{\"mode\":\"%s\",\"fn\":\"%s\",\"lo\":%" PRIu64 ",\"hi\":%" PRIu64 ",\"tol\":%g,\"done\":%" PRIu64 ",\"bad\":%" PRIu64 ",\"worst\":%.6g,\"at\":%u,\"at2\":%u,\"fat\":%u,\"fat2\":%u,\"got\":%u,\"want\":\"%.17g\",\"text\":\"%s\"",j->mode.c_str(),j->fn.c_str(),j->lo,j->hi,j->tol,(u64)j->done,(u64)j->bad,j->worst,j->at,j->at2,j->fat,j->fat2,bf(j->got),j->want,j->text.c_str());
    if(j->mode=="hash"){printf(",\"h\":[");for(size_t i=0;i<j->h.size();i++)printf("%s%" PRIu64,i?",":"",j->h[i]);printf("]");}
    printf("}\n");}
}
