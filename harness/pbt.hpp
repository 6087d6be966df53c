// Small property-based testing engine (choice-sequence based, like Hypothesis).
//
// A property is a function  void property(Gen &g, Ctx &c)  that draws everything random from g.
// Every draw is recorded as an integer choice; a case is therefore its choice sequence, which is what is
// replayed and shrunk.  Each case runs in a forked child from the same pristine process state, so a case is a
// pure function of (code, choices): crashes, aborts (Eigen assertions) and runaway loops are caught, and state
// leaking from one case to the next is impossible.
#ifndef PBT_HPP
#define PBT_HPP
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <cmath>
#include <csignal>
#include <ctime>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <sstream>
#include <fstream>
#include <functional>
#include <algorithm>
#include <iomanip>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>

namespace pbt
{
  static const int MAXCH = 1<<14;
  struct Shm
  {
    volatile uint32_t n;
    volatile int status; // 0 running, 1 ok, 2 violation, 3 discarded
    int nontrivial;
    char key[160];
    char msg[3000];
    char sample[3000];
    uint32_t nlab;
    char lab[96][48];
    uint64_t ch[MAXCH];
  };

  inline uint64_t splitmix(uint64_t &s)
  {
    uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z>>30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z>>27)) * 0x94d049bb133111ebULL;
    return z ^ (z>>31);
  }

  class Gen
  {
  public:
    Gen(Shm *s, uint64_t seed, int size):_s(s),_st(seed),_size(size) {}
    Gen(Shm *s, const std::vector<uint64_t> &r, int size):_s(s),_st(0),_rep(r),_replay(true),_size(size) {}
    // integer in [0,bound]
    uint64_t draw(uint64_t bound)
    {
      uint64_t v;
      if (_replay)
	v = _pos < _rep.size() ? _rep[_pos] : 0;
      else v = splitmix(_st);
      if (bound != UINT64_MAX)
	v = _replay ? (v > bound ? v % (bound+1) : v) : v % (bound+1);
      ++_pos;
      if (_s->n < (uint32_t)MAXCH)
	{
	  _s->ch[_s->n] = v;
	  _s->n = _s->n+1;
	}
      return v;
    }
    long range(long lo, long hi) { return lo + (long)draw((uint64_t)(hi-lo)); }
    bool flip() { return draw(1) == 1; }
    bool chance(int num, int den) { return (long)draw(den-1) >= den-num; } // 0 => false
    double unit() { return (double)draw((1ULL<<53)-1) / (double)(1ULL<<53); }
    double uniform(double a, double b) { return a + (b-a)*unit(); }
    // log-uniform magnitude; choice 0 is the lower end
    double logu(double a, double b) { return a * std::pow(b/a,unit()); }
    template <class T> T pick(const std::vector<T> &v) { return v[draw(v.size()-1)]; }
    int size() const { return _size; }
  private:
    Shm *_s;
    uint64_t _st;
    std::vector<uint64_t> _rep;
    bool _replay = false;
    size_t _pos = 0;
    int _size;
  };

  struct Violation { std::string key, msg; };
  struct Discard {};

  class Ctx
  {
  public:
    explicit Ctx(Shm *s):_s(s) {}
    void label(const std::string &l)
    {
      for (uint32_t i=0;i<_s->nlab;i++)
	if (l == _s->lab[i])
	  return;
      if (_s->nlab < 96)
	{
	  strncpy(_s->lab[_s->nlab],l.c_str(),47);
	  _s->nlab++;
	}
    }
    void nontrivial(bool b=true) { if (b) _s->nontrivial = 1; }
    void sample(const std::string &t) { strncpy(_s->sample,t.c_str(),sizeof(_s->sample)-1); }
    // ends the case at once; usable from any thread or callback.
    [[noreturn]] void fail(const std::string &key, const std::string &msg)
    {
      strncpy(_s->key,key.c_str(),sizeof(_s->key)-1);
      strncpy(_s->msg,msg.c_str(),sizeof(_s->msg)-1);
      _s->status = 2;
      _exit(2);
    }
    void check(bool ok, const std::string &key, const std::function<std::string()> &msg)
    {
      if (!ok)
	fail(key,msg());
    }
    [[noreturn]] void discard() { _s->status = 3; _exit(3); }
  private:
    Shm *_s;
  };

  inline std::string esc(const std::string &s)
  {
    std::string o;
    for (unsigned char c : s)
      {
	if (c == '"' || c == '\\') { o += '\\'; o += c; }
	else if (c == '\n') o += "\\n";
	else if (c < 32 || c > 126) o += '?';
	else o += c;
      }
    return o;
  }

  struct Outcome { int status; std::string key, msg; };
  struct Property
  {
    std::string id;
    std::string rule;
    std::function<void(Gen&,Ctx&)> f;
    int quick_cases;
    int thorough_cases;
    int cpu_limit = 30; // CPU seconds for one case: far above any legitimate case
  };

  inline double now()
  {
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC,&t);
    return t.tv_sec + 1e-9*t.tv_nsec;
  }

  inline Shm* newshm()
  {
    void *p = mmap(nullptr,sizeof(Shm),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
    if (p == MAP_FAILED) { perror("mmap"); _exit(99); }
    return (Shm*)p;
  }

  inline Outcome run_case(const Property &p, Shm *s, const uint64_t *seed, const std::vector<uint64_t> *rep, int size, const std::string &errfile)
  {
    s->n = 0; s->status = 0; s->nontrivial = 0; s->nlab = 0;
    memset(s->key,0,sizeof(s->key)); memset(s->msg,0,sizeof(s->msg)); memset(s->sample,0,sizeof(s->sample)); memset(s->lab,0,sizeof(s->lab));
    fflush(nullptr);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); _exit(99); }
    if (pid == 0)
      {
	int dn = open("/dev/null",O_WRONLY);
	dup2(dn,1);
	int ef = open(errfile.c_str(),O_WRONLY|O_CREAT|O_TRUNC,0600);
	dup2(ef,2);
	struct rlimit rl;
	rl.rlim_cur = p.cpu_limit; rl.rlim_max = p.cpu_limit+5;
	setrlimit(RLIMIT_CPU,&rl);
	alarm(240); // wall clock, against a deadlock
	rl.rlim_cur = rl.rlim_max = 0;
	setrlimit(RLIMIT_CORE,&rl);
	Ctx c(s);
	if (rep)
	  {
	    Gen g(s,*rep,size);
	    p.f(g,c);
	  }
	else
	  {
	    Gen g(s,*seed,size);
	    p.f(g,c);
	  }
	if (s->status == 0)
	  s->status = 1;
	_exit(0);
      }
    int st = 0;
    while (waitpid(pid,&st,0) < 0 && errno == EINTR) {}
    Outcome o;
    o.status = s->status;
    if (s->status == 1 && WIFEXITED(st) && WEXITSTATUS(st) == 0)
      return o;
    if (s->status == 3)
      return o;
    if (s->status == 2)
      {
	o.key = s->key;
	o.msg = s->msg;
	return o;
      }
    o.status = 2;
    std::ifstream in(errfile);
    std::string err((std::istreambuf_iterator<char>(in)),std::istreambuf_iterator<char>());
    if (err.size() > 1800)
      err = err.substr(0,1800);
    if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL || WTERMSIG(st) == SIGALRM))
      {
	o.key = "hang";
	o.msg = "the case did not end within the CPU limit: " + err;
      }
    else
      {
	o.key = "crash";
	o.msg = (WIFSIGNALED(st) ? "killed by signal " + std::to_string(WTERMSIG(st)) : "exit status " + std::to_string(WEXITSTATUS(st))) + ": " + err;
      }
    return o;
  }

  inline void write_replay(const std::string &path, const Property &p, const std::string &key, const std::string &msg, const std::string &sample, int size, const std::vector<uint64_t> &ch)
  {
    std::ofstream f(path);
    f << "property " << p.id << "\nkey " << key << "\nsize " << size << "\nchoices";
    for (uint64_t c : ch)
      f << ' ' << c;
    f << "\n# " << esc(msg) << "\n# case: " << esc(sample) << "\n";
  }

  inline int pbt_main(int argc, char **argv, const Property &p)
  {
    std::map<std::string,std::string> a;
    for (int i=1;i+1<argc;i+=2)
      a[argv[i]] = argv[i+1];
    bool thorough = a["--tier"] == "thorough";
    uint64_t seed = a.count("--seed") ? strtoull(a["--seed"].c_str(),nullptr,10) : 1;
    int workers = a.count("--workers") ? atoi(a["--workers"].c_str()) : 8;
    int ncases = a.count("--cases") ? atoi(a["--cases"].c_str()) : (thorough ? p.thorough_cases : p.quick_cases);
    double tl = a.count("--time-limit") ? atof(a["--time-limit"].c_str()) : 1e9;
    int size = thorough ? 2 : 1;
    std::string tmp = a.count("--tmp") ? a["--tmp"] : "/tmp";
    setenv("OMP_WAIT_POLICY","passive",1);
    if (a.count("--replay"))
      {
	std::ifstream f(a["--replay"]);
	std::string w;
	std::vector<uint64_t> ch;
	std::string line;
	while (std::getline(f,line))
	  {
	    std::istringstream ls(line);
	    ls >> w;
	    if (w == "size") ls >> size;
	    else if (w == "choices") { uint64_t v; while (ls >> v) ch.push_back(v); }
	  }
	Shm *s = newshm();
	Outcome o = run_case(p,s,nullptr,&ch,size,tmp + "/err.replay." + std::to_string(getpid()));
	unlink((tmp + "/err.replay." + std::to_string(getpid())).c_str());
	printf("status=%d key=%s msg=%s\ncase=%s\n",o.status,o.key.c_str(),o.msg.c_str(),s->sample);
	return o.status == 2 ? 1 : 0;
      }

    {
      std::ofstream rf(tmp + "/rule");
      rf << p.rule << std::endl;
    }
    double t0 = now();
    std::vector<pid_t> pids;
    // stop flag shared by the workers: set as soon as one of them has found and stored a failure.
    volatile int *stop = (volatile int*)mmap(nullptr,4096,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
    for (int w=0;w<workers;w++)
      {
	fflush(nullptr);
	pid_t pid = fork();
	if (pid == 0)
	  {
	    Shm *s = newshm();
	    std::string ef = tmp + "/err." + std::to_string(w);
	    std::map<std::string,long> labels;
	    std::set<uint64_t> digests;
	    std::vector<std::string> samples;
	    long evals = 0, disc = 0;
	    bool failed = false;
	    for (int i=w;i<ncases && now()-t0 < tl && !*stop;i+=workers)
	      {
		uint64_t cs = seed*0x9e3779b97f4a7c15ULL + (uint64_t)i*0xd1342543de82ef95ULL + 12345;
		splitmix(cs);
		Outcome o = run_case(p,s,&cs,nullptr,size,ef);
		if (o.status == 3) { ++disc; continue; }
		++evals;
		for (uint32_t l=0;l<s->nlab;l++)
		  labels[s->lab[l]]++;
		if (s->nontrivial)
		  {
		    uint64_t h = 1469598103934665603ULL;
		    for (uint32_t k=0;k<s->n;k++) { h ^= s->ch[k]; h *= 1099511628211ULL; h ^= h>>29; }
		    if (digests.insert(h).second && samples.size() < 2)
		      samples.push_back(s->sample);
		  }
		if (o.status == 2)
		  {
		    std::vector<uint64_t> best(s->ch,s->ch+s->n);
		    std::string key = o.key, msg = o.msg, smp = s->sample;
		    // must fail again, three times, from its recorded choices (a case whose outcome depends on
		    // thread scheduling gets 30 attempts to do so).
		    int tries = key == "hang" ? 1 : 30, need = key == "hang" ? 1 : 3, got = 0;
		    for (int k=0;k<tries && got < need;k++)
		      got += run_case(p,s,nullptr,&best,size,ef).status == 2;
		    bool again = got >= need;
		    std::string base = tmp + "/fail." + std::to_string(w);
		    if (!again)
		      {
			write_replay(base + ".flaky",p,key,msg,smp,size,best);
			labels["flaky"]++;
			continue;
		      }
		    *stop = 1;
		    // shrink, keeping the same key.
		    double ts = now();
		    int budget = key == "hang" ? 0 : 600;
		    auto attempt = [&](std::vector<uint64_t> c)
		      {
			if (budget-- <= 0 || now()-ts > 40.0) return false;
			Outcome q = run_case(p,s,nullptr,&c,size,ef);
			if (q.status != 2 || q.key != key) return false;
			best.assign(s->ch,s->ch+std::min((size_t)s->n,c.size()));
			msg = q.msg; smp = s->sample;
			return true;
		      };
		    bool prog = true;
		    while (prog && budget > 0)
		      {
			prog = false;
			for (size_t len=std::max((size_t)1,best.size()/2);len>=1;len/=2)
			  {
			    for (size_t pos=0;pos<best.size();)
			      {
				std::vector<uint64_t> c(best);
				c.erase(c.begin()+pos,c.begin()+std::min(pos+len,c.size()));
				if (attempt(c)) prog = true;
				else pos += len;
				if (budget <= 0) break;
			      }
			    if (len == 1 || budget <= 0) break;
			  }
			for (size_t pos=0;pos<best.size() && budget > 0;pos++)
			  {
			    if (best[pos] == 0) continue;
			    std::vector<uint64_t> c(best);
			    c[pos] = 0;
			    if (attempt(c)) { prog = true; continue; }
			    if (pos >= best.size()) break;
			    c = best; c[pos] = best[pos]/2;
			    if (c[pos] != best[pos] && attempt(c)) prog = true;
			  }
		      }
		    write_replay(base,p,key,msg,smp,size,best);
		    failed = true;
		    break;
		  }
	      }
	    unlink(ef.c_str());
	    std::ofstream f(tmp + "/worker." + std::to_string(w));
	    f << evals << ' ' << disc << ' ' << digests.size() << ' ' << failed << '\n';
	    for (uint64_t d : digests) f << "D " << d << '\n';
	    for (auto &l : labels) f << "L " << l.second << ' ' << l.first << '\n';
	    for (auto &l : samples) f << "S " << esc(l) << '\n';
	    f.close();
	    _exit(0);
	  }
	pids.push_back(pid);
      }
    bool bad = false;
    for (pid_t pid : pids)
      {
	int st;
	waitpid(pid,&st,0);
	if (!WIFEXITED(st) || WEXITSTATUS(st)) bad = true;
      }
    return bad ? 99 : 0;
  }
}
#endif
