// Native runtime of the contract language: replays a counterexample, or searches for a failing
// input, on the real compiled code.
#include "vtc.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csetjmp>
#include <string>
#include <vector>
#include <map>
#include <random>
#include <chrono>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <signal.h>

namespace {
struct Skip {}; struct Fail {}; struct Stop {};
struct Shared { char fail[512]; uint64_t iters, valid; size_t len; char log[1<<22]; };
Shared* S;
bool replaying=false, expect_abort=false; jmp_buf jb; bool jb_ok=false;
struct In { std::string name, kind; std::vector<uint64_t> v; };
std::vector<In> inputs; size_t pos=0;
std::mt19937_64 rng(1);
std::vector<uint64_t> pool;
std::vector<void*> arrays;
int size_class=0;
void logs(const char* name, const char* kind, const uint64_t* v, size_t n) {
  size_t left=sizeof(S->log)-S->len; char* p=S->log+S->len;
  int k=snprintf(p,left,"%s %s",name,kind); if(k<0||(size_t)k>=left) return; size_t used=k;
  for(size_t i=0;i<n;i++){ k=snprintf(p+used,left-used," %llu",(unsigned long long)v[i]); if(k<0||(size_t)k>=left-used) return; used+=k; }
  if(used+2<left){ p[used++]='\n'; p[used]=0; S->len+=used; }
}
uint64_t mask(unsigned w){ return w>=64?~0ull:((1ull<<w)-1); }
uint64_t draw(unsigned w) {
  uint64_t m=mask(w); uint64_t r=rng();
  switch (rng()%12) {
    case 0: case 1: return r&m;
    case 2: case 3: return (r%5)&m;
    case 4: return (0-(r%4))&m;
    case 5: return ((1ull<<(r%w))+(rng()%3)-1)&m;
    case 6: return (m>>(r%w));
    case 7: case 8: if(!pool.empty()) return (pool[r%pool.size()]+(rng()%3)-1)&m; return r&m;
    case 9: if(!pool.empty()) return pool[r%pool.size()]&m; return (r%17)&m;
    case 10: return (r%17)&m;
    default: return (r&rng()&rng())&m;
  }
}
[[noreturn]] void hard_fail(const char* what) {
  snprintf(S->fail,sizeof S->fail,"%s",what); fflush(stdout); _exit(42);
}
}
namespace vtc {
std::map<std::string,void(*)()>& regs(){ static std::map<std::string,void(*)()> r; return r; }
Reg::Reg(const char* n, void(*f)()){ regs()[n]=f; }
}
extern "C" {
uint64_t vtc_any_bits(const char* name, unsigned w) {
  uint64_t v;
  if (replaying) v = pos<inputs.size() && !inputs[pos].v.empty() ? inputs[pos].v[0] : 0, pos++;
  else { v=draw(w); pool.push_back(v); }
  v&=mask(w); logs(name,"bits",&v,1); return v;
}
uint64_t vtc_any_range(const char* name, unsigned w, uint64_t lo, uint64_t hi, int sg) {
  uint64_t v;
  if (replaying) { v = pos<inputs.size() && !inputs[pos].v.empty() ? inputs[pos].v[0] : lo; pos++;
    if (sg && w<64 && (v>>(w-1)&1)) v |= ~mask(w);
    bool ok = sg ? ((int64_t)v>=(int64_t)lo && (int64_t)v<=(int64_t)hi) : (v>=lo && v<=hi);
    if(!ok) throw Skip{};
  } else {
    uint64_t span=hi-lo; uint64_t r=rng();
    switch(rng()%8){
      case 0: v=lo; break; case 1: v=hi; break;
      case 2: v=lo+(span? r%std::min<uint64_t>(span+ (span!=~0ull),5):0); break;
      case 3: v=hi-(span? r%std::min<uint64_t>(span+ (span!=~0ull),5):0); break;
      case 4: case 5: { v=lo; if(!pool.empty()){ uint64_t q=pool[r%pool.size()]+(rng()%3)-1; if(q-lo<=span){ v=q; break; } } v=span==~0ull? r: lo+r%(span+1); break; }
      case 6: { uint64_t lim=1ull<<(rng()%64); v=lo+ (span==~0ull? (r%lim) : r%std::min<uint64_t>(span+1,lim)); break; }
      default: v= span==~0ull? r: lo+r%(span+1);
    }
    pool.push_back(v);
  }
  uint64_t o=v&mask(w); logs(name,"bits",&o,1); return v;
}
double vtc_any_double(const char* name) {
  uint64_t v; 
  if (replaying) { v = pos<inputs.size() && !inputs[pos].v.empty() ? inputs[pos].v[0] : 0; pos++; }
  else {
    double d; switch(rng()%6){ case 0: d=(double)(int64_t)(rng()%2001)-1000; break; case 1: d=(rng()%1000000)/1000.0; break; case 2: d=0; break;
      case 3: d=1.0/(1+rng()%100); break; case 4: { v=rng(); memcpy(&d,&v,8); break; } default: d=-(double)(rng()%1000000)/999.0; }
    memcpy(&v,&d,8);
  }
  logs(name,"bits",&v,1); double d; memcpy(&d,&v,8); return d;
}
void* vtc_any_array(const char* name, uint64_t n, uint64_t es) {
  if (n>4096) throw Skip{};
  unsigned char* p=(unsigned char*)malloc(n*es+(n==0)); arrays.push_back(p);
  std::vector<uint64_t> vs;
  for(uint64_t i=0;i<n;i++){ uint64_t v; if(replaying) v= pos<inputs.size()&&i<inputs[pos].v.size()?inputs[pos].v[i]:0; else { v=draw(es*8); pool.push_back(v);} vs.push_back(v); memcpy(p+i*es,&v,es);} 
  if(replaying) pos++;
  logs(name,"arr",vs.data(),vs.size()); return p;
}
uint64_t vtc_choose(uint64_t n) {
  uint64_t v; if(replaying){ v= pos<inputs.size()&&!inputs[pos].v.empty()?inputs[pos].v[0]:0; pos++; if(v>=n) throw Skip{}; } else v=rng()%n;
  logs("choose","bits",&v,1); return v;
}
uint64_t vtc_concretize(uint64_t v){ return v; }
void vtc_assume(bool c){ if(!c) throw Skip{}; }
void vtc_ensure(bool c, const char* n){ if(!c){ snprintf(S->fail,sizeof S->fail,"%s",n); throw Fail{}; } }
void vtc_cover(const char*){}
void vtc_stop(){ throw Stop{}; }
void vtc_run_initializers(const char*){}
int vtc_symbolic(){ return 0; }
void vtc_expect_abort(int on){ expect_abort=on; }
void vtc_print(const char* n, uint64_t v){ if(replaying) fprintf(stderr,"  %s = %llu\n",n,(unsigned long long)v); }
uint64_t vtc_ite(bool c, uint64_t a, uint64_t b){ return c?a:b; }
void vtc_assert_fail(const char* m, const char* file, int line){
  if(expect_abort && jb_ok) longjmp(jb,1);
  char b[400]; const char* f=strstr(file,"src/vt"); snprintf(b,sizeof b,"assertion-holds: %s (%s:%d)",m,f?f:file,line); hard_fail(b); }
void vtc_abort(const char* m, const char* file, int line){
  if(expect_abort && jb_ok) longjmp(jb,1);
  char b[400]; const char* f=strstr(file,"src/vt"); snprintf(b,sizeof b,"no-abort: %s (%s:%d)",m,f?f:file,line); hard_fail(b); }
// AddressSanitizer/UBSan: a report is a failure of the contract
const char* __asan_default_options(){ return "detect_leaks=0:exitcode=43:allocator_may_return_null=1:abort_on_error=0:color=never"; }
const char* __ubsan_default_options(){ return "halt_on_error=1:exitcode=44:print_stacktrace=0:color=never"; }
}
static int run_one(void(*f)()) { // 0 ok, 1 skip, 2 fail
  expect_abort=false; S->len=0; S->log[0]=0; pool.clear();
  int r=0;
  jb_ok=true;
  if (setjmp(jb)==0) {
    try { f(); }
    catch (Skip&) { r=1; } catch (Stop&) { r=0; } catch (Fail&) { r=2; }
    catch (std::exception& e) { if(!expect_abort){ char b[400]; snprintf(b,sizeof b,"no-exception: %s",e.what()); snprintf(S->fail,sizeof S->fail,"%s",b); r=2; } }
    catch (char const* e) { r=2; snprintf(S->fail,sizeof S->fail,"no-exception: %.300s",e); }
  }
  jb_ok=false;
  for(void* p: arrays) free(p); arrays.clear();
  return r;
}
int main(int argc, char** argv) {
  S=(Shared*)mmap(nullptr,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
  struct rlimit rl{0,0}; setrlimit(RLIMIT_CORE,&rl);
  if (argc<2) return 9;
  std::string mode=argv[1];
  if (mode=="list") { for(auto& r: vtc::regs()) puts(r.first.c_str()); return 0; }
  auto it=vtc::regs().find(argv[2]); if(it==vtc::regs().end()){ fprintf(stderr,"no contract %s\n",argv[2]); return 9; }
  if (mode=="replay") {
    replaying=true; FILE* fp=fopen(argv[3],"r"); if(!fp) return 9;
    char* line=nullptr; size_t cap=0;
    while(getline(&line,&cap,fp)>0){ if(line[0]=='#'||line[0]=='\n') continue; In in; char* sv; char* t=strtok_r(line," \n",&sv); if(!t) continue; in.name=t; t=strtok_r(nullptr," \n",&sv); if(!t) continue; in.kind=t;
      while((t=strtok_r(nullptr," \n",&sv))) in.v.push_back(strtoull(t,nullptr,10)); inputs.push_back(in);} 
    fclose(fp);
    pid_t c=fork();
    if(c==0){ alarm(60); int r=run_one(it->second); _exit(r==2?42:r==1?5:0); }
    int st; waitpid(c,&st,0);
    if(WIFEXITED(st)&&WEXITSTATUS(st)==0){ printf("REPLAY holds\n"); return 0; }
    if(WIFEXITED(st)&&WEXITSTATUS(st)==5){ printf("REPLAY precondition-not-met\n"); return 5; }
    if(WIFEXITED(st)&&WEXITSTATUS(st)==42) printf("REPLAY FAIL %s\n",S->fail);
    else if(WIFEXITED(st)) printf("REPLAY FAIL memory-or-undefined-behaviour (exit %d)\n",WEXITSTATUS(st));
    else printf("REPLAY FAIL crash (signal %d)\n",WTERMSIG(st));
    return 1;
  }
  if (mode=="fuzz") { // fuzz <contract> <seed> <iters> <secs> <outfile>
    uint64_t seed=strtoull(argv[3],0,10), iters=strtoull(argv[4],0,10); double secs=atof(argv[5]);
    S->iters=S->valid=0;
    pid_t c=fork();
    if(c==0){
      rng.seed(seed); auto t0=std::chrono::steady_clock::now();
      for(uint64_t i=0;i<iters;i++){
        if((i&63)==0 && std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count()>secs) break;
        alarm(20);
        int r=run_one(it->second); S->iters++; if(r!=1) S->valid++;
        if(r==2) _exit(42);
      }
      _exit(0);
    }
    int st; waitpid(c,&st,0);
    if(WIFEXITED(st)&&WEXITSTATUS(st)==0){ printf("FUZZ ok iters=%llu valid=%llu\n",(unsigned long long)S->iters,(unsigned long long)S->valid); return 0; }
    char why[600];
    if(WIFEXITED(st)&&WEXITSTATUS(st)==42) snprintf(why,sizeof why,"%s",S->fail);
    else if(WIFEXITED(st)) snprintf(why,sizeof why,"memory-or-undefined-behaviour (exit %d)",WEXITSTATUS(st));
    else snprintf(why,sizeof why,"crash (signal %d)",WTERMSIG(st));
    FILE* o=fopen(argv[6],"w"); if(o){ fprintf(o,"# contract %s: %s\n",argv[2],why); fputs(S->log,o); fclose(o);} 
    printf("FUZZ FAIL %s iters=%llu\n",why,(unsigned long long)S->iters); return 1;
  }
  return 9;
}
