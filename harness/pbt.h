#pragma once
/*
 * A small property-based testing engine.
 *
 * Every case is decoded from a sequence of integer choices drawn through Gen.  The choices are made
 * by a PRNG that is seeded from (VERIF_SEED, case number), or come from a replay file, or from the
 * bytes that libFuzzer supplies; so one decoder serves random search, coverage-guided search,
 * shrinking and replay.
 *
 * Workers are forked processes, so that an assertion, a sanitizer report or a hang in the code under
 * test is a failure of one known case rather than the end of the run.  The choices of the case that
 * is running are kept in memory shared with the parent.  The parent shrinks a failing sequence by
 * re-running candidates, each in its own child, then confirms the result three times.
 */
#include	<cstdint>
#include	<cstdio>
#include	<cstdlib>
#include	<cstring>
#include	<cstdarg>
#include	<string>
#include	<vector>
#include	<map>
#include	<unordered_set>
#include	<sstream>
#include	<functional>
#include	<algorithm>
#include	<new>
#include	<signal.h>
#include	<unistd.h>
#include	<fcntl.h>
#include	<errno.h>
#include	<time.h>
#include	<sys/mman.h>
#include	<sys/time.h>
#include	<sys/wait.h>
#include	<sys/resource.h>
#include	<sys/prctl.h>

#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
extern "C" void __sanitizer_set_death_callback(void (*callback)(void));
#endif

namespace pbt {

static inline uint64_t mix64(uint64_t z)
{
	z += 0x9E3779B97F4A7C15ull;
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
	z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
	return z ^ (z >> 31);
}

struct Failure { std::string msg; };

enum { MaxChoices = 1<<16 };
struct Shared			// One per worker, visible to the parent
{
	volatile uint64_t	case_index;
	volatile uint64_t	case_start_ms;
	volatile uint64_t	evaluations;
	volatile uint32_t	running;
	volatile uint32_t	failed;
	volatile uint32_t	num_choices;
	uint32_t		choices[MaxChoices];
	char			message[8192];
};

static inline uint64_t now_ms()
{
	struct timespec ts;
	clock_gettime(CLOCK_MONOTONIC, &ts);
	return (uint64_t)ts.tv_sec*1000 + ts.tv_nsec/1000000;
}

struct Gen
{
	enum Mode { Random, Choices, Bytes } mode = Random;
	uint64_t	rng = 0;
	const uint32_t*	src = 0; size_t nsrc = 0;
	const uint8_t*	bytes = 0; size_t nbytes = 0;
	size_t		pos = 0;
	uint32_t*	rec = 0;		// where choices are recorded
	volatile uint32_t* nrec = 0;
	uint32_t	count = 0;
	uint64_t	hash = 0;
	bool		overflow = false;

	uint32_t	raw(uint32_t n)		// n >= 1; [0,n)
	{
		uint32_t v = 0;
		if (n <= 1)
			return 0;
		if (count >= MaxChoices)
			return 0;		// Everything is minimal from here; the case must end soon
		switch (mode)
		{
		case Random:
			rng = rng + 0x9E3779B97F4A7C15ull;
			v = (uint32_t)((mix64(rng) >> 32) * (uint64_t)n >> 32);
			break;
		case Choices:
			v = pos < nsrc ? src[pos] % n : 0;
			pos++;
			break;
		case Bytes:
		{
			int w = n <= 256 ? 1 : n <= 65536 ? 2 : 4;
			for (int i = 0; i < w; i++)
				v = (v<<8) | (pos < nbytes ? bytes[pos++] : 0);
			v %= n;
			break;
		}
		}
		if (rec)
		{
			rec[count] = v;
			*nrec = count+1;
		}
		count++;
		hash = mix64(hash ^ ((uint64_t)v<<32 | n));
		return v;
	}
	bool		exhausted() const { return mode == Bytes && pos >= nbytes; }
	// inclusive range; the simplest choice is lo
	int64_t		range(int64_t lo, int64_t hi)
	{
		uint64_t	n = (uint64_t)(hi-lo)+1;
		if (n <= 0xFFFFFFFFull)
			return lo + raw((uint32_t)n);
		uint64_t v = ((uint64_t)raw(0xFFFFFFFFu)<<32) ^ raw(0xFFFFFFFFu);
		return n ? lo + (int64_t)(v % n) : (int64_t)v;
	}
	uint32_t	u32() { uint32_t h = raw(65536); return h<<16 | raw(65536); }
	bool		chance(int num, int den) { return (int)raw(den) >= den-num; }	// simplest: false
	bool		coin() { return raw(2) == 1; }
	// weighted choice; simplest is index 0
	int		weighted(std::initializer_list<int> w) { return weighted(w.begin(), w.size()); }
	int		weighted(const int* w, size_t n)
	{
		int t = 0; for (size_t i = 0; i < n; i++) t += w[i];
		int v = raw(t);
		for (size_t i = 0; i < n; i++) { if (v < w[i]) return i; v -= w[i]; }
		return 0;
	}
	template<class T> const T& pick(const std::vector<T>& v) { return v[raw(v.size())]; }
	template<class T, size_t N> const T& pick(const T (&v)[N]) { return v[raw(N)]; }
};

struct Ctx
{
	bool		verbose = false;
	bool		nontrivial = false;
	bool		no_leak_check = false;	// this case may leave things behind
	std::string	log;
	std::map<std::string, uint64_t>* labels = 0;
	int		max_size = 20;

	void	label(const char* l) { if (labels) (*labels)[l]++; }
	void	label(const std::string& l) { if (labels) (*labels)[l]++; }
	void	line(const std::string& s) { if (log.size() < 60000) { log += s; log += '\n'; } }
};

// Log a step of the case. The stream expression is evaluated only when the case is being written out.
#define	PLOG(c, expr)	do { if ((c).verbose) { std::ostringstream _o; _o << expr; (c).line(_o.str()); } } while (0)
#define	PFAIL(expr)	do { std::ostringstream _o; _o << expr; throw pbt::Failure{_o.str()}; } while (0)
#define	PCHECK(cond, expr) do { if (!(cond)) PFAIL(expr); } while (0)

// --- allocation accounting, for properties that require everything to be reclaimed ---
#if defined(PBT_ALLOC_HOOKS)
extern "C" int __sanitizer_install_malloc_and_free_hooks(
	void (*malloc_hook)(const volatile void *, size_t), void (*free_hook)(const volatile void *));
static volatile long	live_allocs;
static bool		count_allocs;
extern "C" size_t __sanitizer_get_allocated_size(const volatile void*);
// What one piece of code allocates (in checks that run it in one thread)
struct Meter
{
	static Meter*&	on() { static Meter* m; return m; }
	volatile long	count = 0, bytes = 0, live = 0, peak = 0;	// live may be negative: memory of before may be freed
	Meter() { on() = this; }
	~Meter() { stop(); }
	void	stop() { on() = 0; }
};
static void	malloc_hook(const volatile void* p, size_t n)
{
	if (!p) return;
	__atomic_add_fetch(&live_allocs, 1, __ATOMIC_RELAXED);
	if (Meter* m = Meter::on())
	{
		m->count = m->count+1; m->bytes = m->bytes+n; m->live = m->live+n;
		if (m->live > m->peak) m->peak = m->live;
	}
}
static void	free_hook(const volatile void* p)
{
	if (!p) return;
	__atomic_sub_fetch(&live_allocs, 1, __ATOMIC_RELAXED);
	if (Meter* m = Meter::on()) m->live = m->live - __sanitizer_get_allocated_size(p);
}
#endif

// The largest values that are made. Checks that replay the histories of others, or run them slowly, lower it
inline int&	most() { static int n = 70000; return n; }

// In the check that requires certain calls to allocate nothing, that is checked; elsewhere they are just made
template<class F> static inline auto	unallocating(const char* what, F f) -> decltype(f())
{
#if defined(PBT_METERED)
	Meter	m;
	auto	r = f();
	m.stop();
	PCHECK(m.count == 0, what << " made " << m.count << " allocation(s), of " << m.bytes << " bytes");
	return r;
#else
	return f();
#endif
}

typedef void (*CaseFn)(Gen&, Ctx&);
typedef bool (*ProbeFn)();	// returns true while the recorded defect is still there
struct Known { const char* what; ProbeFn still_fails; };

struct Property
{
	const char*	id;
	CaseFn		fn;
	const char*	rule;
	bool		leak_check = false;	// a case must free everything it allocated
	bool		meter = false;		// a case uses Meter
	bool		nondeterministic = false; // threads: a failure need not replay
	int		cpu_limit_s = 25;
	int		wall_limit_s = 120;
	std::vector<Known> known;
};

struct Options
{
	uint64_t	seed = 1, cases = 100000, first = 0;
	int		workers = 8, seconds = 60, max_size = 20;
	std::string	out, replay, report, bytes, save;
	bool		verbose = false;
};

static int	cpu_limit = 10;
static void	on_prof(int) { static const char m[] = "pbt: case exceeded its CPU limit (non-termination)\n"; (void)!write(2, m, sizeof(m)-1); _exit(78); }
static void	arm(int secs)
{
	struct itimerval it = {};
	it.it_value.tv_sec = secs;
	setitimer(ITIMER_PROF, &it, 0);
}

// Run one case. Throws Failure.
static void	run_one(const Property& p, Gen& g, Ctx& c)
{
#if defined(PBT_ALLOC_HOOKS)
	if (p.leak_check)
	{
		p.fn(g, c);
		std::vector<uint32_t> ch(g.rec, g.rec+g.count);
		// Effects that happen once (function statics, caches) are not leaks; a leak happens every time
		long	delta[2];
		for (int i = 0; i < 2; i++)
		{
			Gen	g2; g2.mode = Gen::Choices; g2.src = ch.data(); g2.nsrc = ch.size();
			long	b = live_allocs;
			{
				Ctx	c0; c0.max_size = c.max_size;
				p.fn(g2, c0);
				if (c0.no_leak_check)
					return;
			}
			delta[i] = live_allocs-b;
			if (delta[i] == 0)
				return;
		}
		if (delta[0] > 0 && delta[1] > 0)
			PFAIL("memory not reclaimed: " << delta[1] << " allocation(s) still live after every object of this history was destroyed");
		return;
	}
#endif
	p.fn(g, c);
}

static void	child_signals(int cpu)
{
	signal(SIGPROF, on_prof);
	cpu_limit = cpu;
	arm(cpu);
	prctl(PR_SET_PDEATHSIG, SIGKILL);
}

enum Outcome { Pass, Fail, Crash, Hang, Killed };

static Outcome	classify(int status, bool failed)
{
	if (WIFEXITED(status))
	{
		int code = WEXITSTATUS(status);
		if (code == 0) return Pass;
		if (code == 10) return Fail;
		if (code == 78) return Hang;
		return Crash;		// sanitizer exit
	}
	if (WIFSIGNALED(status) && (WTERMSIG(status) == SIGKILL || WTERMSIG(status) == SIGTERM))
		return Killed;
	return Crash;
}

static long	rss_mb(pid_t pid)
{
	char	path[64]; snprintf(path, sizeof path, "/proc/%d/statm", (int)pid);
	FILE*	f = fopen(path, "r");
	if (!f) return 0;
	long	a = 0, b = 0;
	if (fscanf(f, "%ld %ld", &a, &b) != 2) b = 0;
	fclose(f);
	return b*4/1024;
}

static int	wait_limited(pid_t pid, int wall_s, bool& hung)
{
	uint64_t	start = now_ms();
	int		status = 0;
	hung = false;
	useconds_t	nap = 200;
	for (;;)
	{
		pid_t r = waitpid(pid, &status, WNOHANG);
		if (r == pid) return status;
		if (r < 0 && errno != EINTR) return status;
		uint64_t	t = now_ms()-start;
		if (t > (uint64_t)wall_s*1000 || (t > 200 && rss_mb(pid) > 4000))
		{
			hung = true;
			kill(pid, SIGKILL);
			waitpid(pid, &status, 0);
			return status;
		}
		usleep(nap);
		if (nap < 5000) nap += nap/2;
	}
}

// Run one choice sequence in a child
static Outcome	try_choices(const Property& p, const Options& o, Shared* sh, const std::vector<uint32_t>& ch, int cpu,
			std::vector<uint32_t>* used = 0, std::string* report = 0, std::string* message = 0)
{
	char		errname[] = "/tmp/pbt_err_XXXXXX";
	int		efd = mkstemp(errname);
	sh->num_choices = 0; sh->failed = 0; sh->message[0] = 0;
	fflush(stdout); fflush(stderr);
	pid_t		pid = fork();
	if (pid == 0)
	{
		child_signals(cpu);
		dup2(efd, 2);
		int dn = open("/dev/null", O_WRONLY); dup2(dn, 1);
		Gen	g; g.mode = Gen::Choices; g.src = ch.data(); g.nsrc = ch.size();
		g.rec = sh->choices; g.nrec = &sh->num_choices;
		Ctx	c; c.max_size = o.max_size;
		try {
			run_one(p, g, c);
		} catch (Failure& f) {
			snprintf(sh->message, sizeof sh->message, "%s", f.msg.c_str());
			_exit(10);
		} catch (std::exception& e) {
			snprintf(sh->message, sizeof sh->message, "C++ exception: %s", e.what());
			_exit(10);
		}
		_exit(0);
	}
	bool	hung;
	int	status = wait_limited(pid, p.wall_limit_s, hung);
	Outcome	r = hung ? Hang : classify(status, false);
	if (used)
		used->assign(sh->choices, sh->choices+sh->num_choices);
	if (message)
		*message = sh->message;
	if (report)
	{
		char	buf[6000]; report->clear();
		lseek(efd, 0, SEEK_SET);
		ssize_t n = read(efd, buf, sizeof buf);
		if (n > 0) report->assign(buf, n);
		size_t cut = report->find("Shadow bytes around");
		if (cut != std::string::npos) report->resize(cut);
	}
	close(efd); unlink(errname);
	return r;
}

// Write out the text of a case; the child may crash part way, so the log is streamed
static std::string	describe(const Property& p, const Options& o, const std::vector<uint32_t>& ch)
{
	int	fds[2];
	if (pipe(fds)) return "";
	fflush(stdout); fflush(stderr);
	pid_t	pid = fork();
	if (pid == 0)
	{
		child_signals(cpu_limit);
		close(fds[0]);
		int dn = open("/dev/null", O_WRONLY); dup2(dn, 1); dup2(dn, 2);
		struct StreamCtx : Ctx {} c;
		c.verbose = true; c.max_size = o.max_size;
		static int out; out = fds[1];
		static Ctx* cp; cp = &c;
		auto flush = []() { (void)!write(out, cp->log.data(), cp->log.size()); };
		static void (*fl)() = +flush;
		signal(SIGABRT, [](int) { fl(); _exit(1); });
		signal(SIGPROF, [](int) { fl(); _exit(1); });
		signal(SIGSEGV, [](int) { fl(); _exit(1); });
		signal(SIGALRM, [](int) { fl(); _exit(1); });
#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
		__sanitizer_set_death_callback([]() { fl(); });
#endif
		alarm(p.cpu_limit_s+10);
		Gen	g; g.mode = Gen::Choices; g.src = ch.data(); g.nsrc = ch.size();
		std::vector<uint32_t> rec(MaxChoices); volatile uint32_t n = 0;
		g.rec = rec.data(); g.nrec = &n;
		std::string m;
		try { run_one(p, g, c); }
		catch (Failure& f) { c.line("=> " + f.msg); }
		catch (std::exception& e) { c.line(std::string("=> exception ") + e.what()); }
		flush();
		_exit(0);
	}
	close(fds[1]);
	std::string	s; char buf[4096]; ssize_t n;
	while ((n = read(fds[0], buf, sizeof buf)) > 0) s.append(buf, n);
	close(fds[0]);
	int st; waitpid(pid, &st, 0);
	return s;
}

static bool	bad(Outcome r) { return r == Fail || r == Crash || r == Hang; }

static std::vector<uint32_t> shrink(const Property& p, const Options& o, Shared* sh, std::vector<uint32_t> best, Outcome kind)
{
	uint64_t	deadline = now_ms() + (o.seconds > 100 ? 90000 : 45000);
	int		cpu = kind == Hang ? 3 : p.cpu_limit_s;
	int		tries = 0;
	auto attempt = [&](const std::vector<uint32_t>& cand) -> bool
	{
		if (now_ms() > deadline || ++tries > 4000) return false;
		std::vector<uint32_t> used;
		Outcome r = try_choices(p, o, sh, cand, cpu, &used);
		if (!bad(r)) return false;
		if (kind != Hang && r == Hang) return false;
		// shortlex order on what was consumed
		if (used.size() > cand.size()) used = cand;
		while (used.size() && used.back() == 0) used.pop_back();
		if (used.size() < best.size() || (used.size() == best.size() && used < best))
		{
			best = used;
			return true;
		}
		return false;
	};
	bool	progress = true;
	while (progress && now_ms() < deadline)
	{
		progress = false;
		// delete blocks
		for (size_t len = std::max<size_t>(best.size()/2, 1); len >= 1; len = len > 8 ? len/2 : len-1)
		{
			for (size_t at = 0; at+len <= best.size(); )
			{
				std::vector<uint32_t> c = best;
				c.erase(c.begin()+at, c.begin()+at+len);
				if (attempt(c)) progress = true;
				else at += std::max<size_t>(1, len > 8 ? len/2 : 1);
				if (now_ms() > deadline) break;
			}
			if (now_ms() > deadline) break;
		}
		// delete one choice and decrement an earlier one (shortens counted lists)
		for (size_t i = 0; i < best.size() && now_ms() < deadline; i++)
			if (best[i] > 0)
				for (size_t len = 1; len <= 6 && i+1+len <= best.size(); len++)
				{
					std::vector<uint32_t> c = best;
					c[i]--;
					c.erase(c.begin()+i+1, c.begin()+i+1+len);
					if (attempt(c)) { progress = true; break; }
				}
		// minimise values
		for (size_t i = 0; i < best.size() && now_ms() < deadline; i++)
		{
			if (best[i] == 0) continue;
			std::vector<uint32_t> c = best;
			c[i] = 0;
			if (attempt(c)) { progress = true; continue; }
			uint32_t lo = 0;
			while (i < best.size() && lo+1 < best[i] && now_ms() < deadline)
			{
				c = best;
				uint32_t mid = lo + (best[i]-lo)/2;
				c[i] = mid;
				if (attempt(c)) { progress = true; }
				else lo = mid;
			}
			if (i < best.size() && best[i] > 0) { c = best; c[i]--; if (attempt(c)) progress = true; }
		}
	}
	return best;
}

static std::string	json_str(const std::string& s)
{
	std::string r = "\"";
	for (unsigned char ch : s)
	{
		char b[8];
		if (ch == '"' || ch == '\\') { r += '\\'; r += ch; }
		else if (ch == '\n') r += "\\n";
		else if (ch == '\t') r += "\\t";
		else if (ch < 0x20 || ch >= 0x7f) { snprintf(b, sizeof b, "\\u%04x", ch); r += b; }
		else r += ch;
	}
	return r + "\"";
}

static void	write_replay(const std::string& path, const Property& p, const Options& o, const std::vector<uint32_t>& ch, const std::string& text)
{
	FILE* f = fopen(path.c_str(), "w");
	if (!f) { perror(path.c_str()); return; }
	fprintf(f, "pbt-replay %s max_size %d\nchoices", p.id, o.max_size);
	for (uint32_t v : ch) fprintf(f, " %u", v);
	fprintf(f, "\n---\n%s\n", text.c_str());
	fclose(f);
}

static const char*	outcome_name(Outcome r)
{
	switch (r) { case Pass: return "pass"; case Fail: return "oracle disagreed"; case Crash: return "crashed (assertion or sanitizer)"; case Hang: return "did not terminate, or grew without bound"; default: return "killed"; }
}

static int	report_violation(const Property& p, const Options& o, Shared* sh, std::vector<uint32_t> found, Outcome kind, std::string first_msg)
{
	std::vector<uint32_t> best = found;
	bool	nondet = p.nondeterministic || first_msg.compare(0, 9, "[threads]") == 0;	// need not replay
	if (!nondet)
		best = shrink(p, o, sh, found, kind);
	std::string err, msg; Outcome r = Pass;
	int	fails = 0;
	int	want = 3;
	for (int i = 0; i < want; i++)
	{
		r = try_choices(p, o, sh, best, p.cpu_limit_s, 0, &err, &msg);
		if (bad(r)) fails++;
	}
	if (fails < want && best != found)
	{
		best = found; fails = 0;
		for (int i = 0; i < want; i++)
		{
			r = try_choices(p, o, sh, best, p.cpu_limit_s, 0, &err, &msg);
			if (bad(r)) fails++;
		}
	}
	if (fails < want && !nondet)
		return 0;		// caller tries the history of cases instead
	if (msg.empty() && best == found) msg = first_msg;
	std::string text = "property " + std::string(p.id) + ": " + outcome_name(bad(r) ? r : kind) + "\n" + msg + "\n";
	text += "--- case ---\n" + describe(p, o, best) + "--- stderr ---\n" + err;
	write_replay(o.replay.empty() ? o.report : o.report, p, o, best, text);
	printf("%s\n", text.substr(0, 6000).c_str());
	printf("FOUND %s\n", o.report.c_str());
	fflush(stdout);
	return 1;
}

static bool	read_replay(const std::string& path, std::vector<uint32_t>& ch, Options& o, bool& range, uint64_t r[3])
{
	FILE* f = fopen(path.c_str(), "r");
	if (!f) { perror(path.c_str()); return false; }
	char id[64]; int ms = 20;
	range = false;
	if (fscanf(f, "pbt-replay %63s max_size %d\n", id, &ms) != 2) { fclose(f); return false; }
	o.max_size = ms;
	char word[32];
	if (fscanf(f, "%31s", word) != 1) { fclose(f); return false; }
	if (!strcmp(word, "range"))
	{
		range = true;
		if (fscanf(f, "%lu %lu %lu", &r[0], &r[1], &r[2]) != 3) r[0] = r[1] = r[2] = 0;
	}
	else
	{
		unsigned v;
		while (fscanf(f, "%u", &v) == 1) ch.push_back(v);
	}
	fclose(f);
	return true;
}

static void	seed_case(const Property& p, Gen& g, uint64_t seed, uint64_t index)
{
	uint64_t h = mix64(seed ^ 0x5bd1e995);
	for (const char* q = p.id; *q; q++) h = mix64(h ^ (unsigned char)*q);
	g.mode = Gen::Random;
	g.rng = mix64(h ^ mix64(index+1));
}

struct WorkerStats { uint64_t evals = 0, nontrivial = 0; };

// Run cases first, first+step, ... below end (in this process). Returns normally if all pass.
static void	worker_loop(const Property& p, const Options& o, Shared* sh, uint64_t first, uint64_t step, uint64_t end,
			uint64_t deadline, std::map<std::string,uint64_t>& labels, std::unordered_set<uint64_t>& distinct,
			std::vector<std::pair<uint64_t, std::vector<uint32_t>>>* samples)
{
	for (uint64_t i = first; i < end; i += step)
	{
		if (deadline && now_ms() > deadline) break;
		Gen	g; seed_case(p, g, o.seed, i);
		g.rec = sh->choices; g.nrec = &sh->num_choices;
		sh->num_choices = 0;
		sh->case_index = i; sh->case_start_ms = now_ms(); sh->running = 1;
		arm(p.cpu_limit_s);
		Ctx	c; c.labels = &labels; c.max_size = o.max_size;
		try {
			run_one(p, g, c);
		} catch (Failure& f) {
			snprintf(sh->message, sizeof sh->message, "%s", f.msg.c_str());
			sh->failed = 1;
			_exit(10);
		} catch (std::exception& e) {
			snprintf(sh->message, sizeof sh->message, "C++ exception: %s", e.what());
			sh->failed = 1;
			_exit(10);
		}
		sh->running = 0;
		sh->evaluations = sh->evaluations+1;
		if (const char* slow = getenv("PBT_SLOW"))	// Development: which cases take long
		{
			struct itimerval t; getitimer(ITIMER_PROF, &t);
			double	used = p.cpu_limit_s-t.it_value.tv_sec-t.it_value.tv_usec*1e-6;
			FILE*	f = used > 0.3 ? fopen(slow, "a") : 0;
			if (f) { fprintf(f, "%s %lu %.2f\n", p.id, (unsigned long)i, used); fclose(f); }
		}
		if (c.nontrivial)
		{
			if (distinct.insert(g.hash).second && samples && samples->size() < 2 && distinct.size() >= 20*(samples->size()+1) && g.count < 200)
				samples->push_back({i, std::vector<uint32_t>(g.rec, g.rec+g.count)});
		}
	}
}

static int	run_main(Property p, int argc, char** argv)
{
	Options	o;
	o.report = "/tmp/replay.txt";
	std::vector<std::string> a(argv+1, argv+argc);
	bool	probes = false;
	long	show = -1;
	for (size_t i = 0; i < a.size(); i++)
	{
		auto next = [&]() { return i+1 < a.size() ? a[++i] : std::string(); };
		if (a[i] == "--seed") o.seed = strtoull(next().c_str(), 0, 10);
		else if (a[i] == "--cases") o.cases = strtoull(next().c_str(), 0, 10);
		else if (a[i] == "--workers") o.workers = atoi(next().c_str());
		else if (a[i] == "--seconds") o.seconds = atoi(next().c_str());
		else if (a[i] == "--size") o.max_size = atoi(next().c_str());
		else if (a[i] == "--out") o.out = next();
		else if (a[i] == "--report") o.report = next();
		else if (a[i] == "--replay") o.replay = next();
		else if (a[i] == "--bytes") o.bytes = next();
		else if (a[i] == "--probes") probes = true;
		else if (a[i] == "--show") show = atol(next().c_str());
		else { fprintf(stderr, "unknown argument %s\n", a[i].c_str()); return 2; }
	}
#if defined(PBT_ALLOC_HOOKS)
	if (p.leak_check || p.meter) __sanitizer_install_malloc_and_free_hooks(malloc_hook, free_hook);
#endif
	cpu_limit = p.cpu_limit_s;
	int	nshared = o.workers+1;
	Shared*	shared = (Shared*)mmap(0, sizeof(Shared)*nshared, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
	if (shared == MAP_FAILED) { perror("mmap"); return 2; }
	Shared*	mine = &shared[o.workers];

	// Recorded defects: report each that is still there
	for (auto& k : p.known)
	{
		fflush(stdout);
		pid_t pid = fork();
		if (pid == 0)
		{
			child_signals(p.cpu_limit_s);
			int dn = open("/dev/null", O_WRONLY); dup2(dn, 2);
			bool r = true;
			try { r = k.still_fails(); } catch (...) { r = true; }
			_exit(r ? 10 : 0);
		}
		bool hung; int st = wait_limited(pid, p.wall_limit_s, hung);
		if (hung || bad(classify(st, false)))
			printf("KNOWN-FINDING: property=%s %s\n", p.id, k.what);
	}
	fflush(stdout);
	if (probes) return 0;

	if (show >= 0)			// Development: print the history of a case of this seed
	{
		Gen	g; seed_case(p, g, o.seed, show);
		std::vector<uint32_t> rec(MaxChoices); volatile uint32_t n = 0; g.rec = rec.data(); g.nrec = &n;
		Ctx	c; c.verbose = true; c.max_size = o.max_size;
		try { p.fn(g, c); } catch (Failure& f) { c.line("=> " + f.msg); }
		printf("%s\n", c.log.c_str());
		return 0;
	}
	if (!o.replay.empty())
	{
		std::vector<uint32_t> ch; bool range; uint64_t r[3];
		if (!read_replay(o.replay, ch, o, range, r)) return 2;
		if (range)
		{
			pid_t pid = fork();
			if (pid == 0)
			{
				child_signals(p.cpu_limit_s);
				std::map<std::string,uint64_t> l; std::unordered_set<uint64_t> d;
				Options o2 = o; o2.seed = r[0];
				worker_loop(p, o2, mine, r[1] % o.workers, o.workers, r[1]+1, 0, l, d, 0);
				_exit(0);
			}
			bool hung; int st = wait_limited(pid, 600, hung);
			Outcome oc = hung ? Hang : classify(st, false);
			printf("replay (range): %s %s\n", outcome_name(oc), mine->message);
			return bad(oc) ? 1 : 0;
		}
		std::string err, msg;
		Outcome rr = try_choices(p, o, mine, ch, p.cpu_limit_s, 0, &err, &msg);
		printf("%s\n--- stderr ---\n%s\nreplay: %s: %s\n", describe(p, o, ch).c_str(), err.c_str(), outcome_name(rr), msg.c_str());
		return bad(rr) ? 1 : 0;
	}

	if (!o.bytes.empty())		// An input found by libFuzzer: decode it, shrink it, report it
	{
		FILE* f = fopen(o.bytes.c_str(), "rb");
		if (!f) { perror(o.bytes.c_str()); return 2; }
		std::vector<uint8_t> b; int ch;
		while ((ch = fgetc(f)) != EOF) b.push_back(ch);
		fclose(f);
		mine->num_choices = 0; mine->message[0] = 0;
		pid_t pid = fork();
		if (pid == 0)
		{
			child_signals(p.cpu_limit_s);
			Gen g; g.mode = Gen::Bytes; g.bytes = b.data(); g.nbytes = b.size();
			g.rec = mine->choices; g.nrec = &mine->num_choices;
			Ctx c; c.max_size = o.max_size;
			try { run_one(p, g, c); } catch (Failure& e) { snprintf(mine->message, sizeof mine->message, "%s", e.msg.c_str()); _exit(10); }
			_exit(0);
		}
		bool hung; int st = wait_limited(pid, p.wall_limit_s, hung);
		Outcome oc = hung ? Hang : classify(st, false);
		if (!bad(oc)) { printf("input passes\n"); return 0; }
		std::vector<uint32_t> found(mine->choices, mine->choices+mine->num_choices);
		return report_violation(p, o, mine, found, oc, mine->message);
	}

	uint64_t	start = now_ms();
	uint64_t	deadline = start + (uint64_t)o.seconds*1000;
	char		tmpl[] = "/tmp/pbt_XXXXXX";
	char*		dir = mkdtemp(tmpl);
	if (!dir) { perror("mkdtemp"); return 2; }
	std::string	tmp = dir;
	std::vector<pid_t> pids(o.workers, 0);
	std::vector<uint64_t> next_first(o.workers);
	std::vector<int> gen(o.workers, 0);
	auto spawn = [&](int w, uint64_t first)
	{
		Shared* sh = &shared[w];
		sh->failed = 0; sh->running = 0; sh->message[0] = 0;
		fflush(stdout); fflush(stderr);
		pid_t pid = fork();
		if (pid == 0)
		{
			child_signals(p.cpu_limit_s);
			std::string e = tmp + "/err." + std::to_string(w);
			int fd = open(e.c_str(), O_WRONLY|O_CREAT|O_TRUNC, 0600); dup2(fd, 2);
			int dn = open("/dev/null", O_WRONLY); dup2(dn, 1);
			std::map<std::string,uint64_t> labels; std::unordered_set<uint64_t> distinct;
			std::vector<std::pair<uint64_t, std::vector<uint32_t>>> samples;
			worker_loop(p, o, sh, first, o.workers, o.cases, deadline, labels, distinct, &samples);
			arm(0);
			std::string fn = tmp + "/stats." + std::to_string(w) + "." + std::to_string(gen[w]);
			FILE* f = fopen(fn.c_str(), "w");
			for (auto& l : labels) fprintf(f, "L %lu %s\n", l.second, l.first.c_str());
			for (auto& s : samples)
			{
				fprintf(f, "S %lu", s.second.size());
				for (uint32_t v : s.second) fprintf(f, " %u", v);
				fprintf(f, "\n");
			}
			fprintf(f, "D %lu", distinct.size());
			for (uint64_t h : distinct) fprintf(f, " %lx", h);
			fprintf(f, "\n");
			fclose(f);
			_exit(0);
		}
		pids[w] = pid;
	};
	for (int w = 0; w < o.workers; w++) spawn(w, w);

	int		result = 0, inconclusive = 0;
	int		alive = o.workers;
	auto		kill_all = [&]() { for (auto& q : pids) if (q) { kill(q, SIGKILL); int s; waitpid(q, &s, 0); q = 0; } };
	while (alive > 0 && !result)
	{
		usleep(2000);
		static int tick; tick++;
		for (int w = 0; w < o.workers && !result; w++)
		{
			if (!pids[w]) continue;
			int	status; bool hung = false;
			pid_t	r = waitpid(pids[w], &status, WNOHANG);
			Shared*	sh = &shared[w];
			if (r != pids[w])
			{
				bool blow = (tick % 50) == 0 && rss_mb(pids[w]) > 4000;
				if (!blow && !(sh->running && now_ms() - sh->case_start_ms > (uint64_t)p.wall_limit_s*1000
				 && now_ms() > sh->case_start_ms))
					continue;
				kill(pids[w], SIGKILL); waitpid(pids[w], &status, 0);
				hung = true;
			}
			pids[w] = 0;
			Outcome oc = hung ? Hang : classify(status, false);
			if (oc == Pass) { alive--; continue; }
			uint64_t idx = sh->case_index;
			std::string msg = sh->message;
			std::vector<uint32_t> found(sh->choices, sh->choices+sh->num_choices);
			if (oc == Killed) oc = Hang;		// must reproduce to count
			fprintf(stderr, "case %lu: %s: %s\n", idx, outcome_name(oc), msg.c_str());
			kill_all();
			alive = 0;
			if (report_violation(p, o, mine, found, oc, msg)) { result = 1; break; }
			// It does not reproduce alone. Does the history of cases in that worker reproduce it?
			int again = 0;
			for (int k = 0; k < 2; k++)
			{
				pid_t pid = fork();
				if (pid == 0)
				{
					child_signals(p.cpu_limit_s);
					int dn = open("/dev/null", O_WRONLY); dup2(dn, 2);
					std::map<std::string,uint64_t> l; std::unordered_set<uint64_t> d;
					worker_loop(p, o, mine, w, o.workers, idx+1, 0, l, d, 0);
					_exit(0);
				}
				bool h; int st = wait_limited(pid, 200, h);
				if (!h && bad(classify(st, false))) again++;
			}
			if (again == 2)
			{
				FILE* f = fopen(o.report.c_str(), "w");
				fprintf(f, "pbt-replay %s max_size %d\nrange %lu %lu 0\n---\n%s\n%s\n", p.id, o.max_size, o.seed, idx, msg.c_str(), mine->message);
				fclose(f);
				printf("%s (depends on the cases before it)\nFOUND %s\n", msg.c_str(), o.report.c_str());
				result = 1;
				break;
			}
			printf("INCONCLUSIVE: case %lu failed once (%s) and does not reproduce\n", idx, msg.c_str());
			inconclusive++;
			if (inconclusive < 3)
			{	// go on after it, in every worker
				for (int v = 0; v < o.workers; v++)
				{
					uint64_t f = shared[v].case_index + o.workers;
					gen[v]++;
					spawn(v, f);
				}
				alive = o.workers;
			}
			break;
		}
	}
	kill_all();

	// Collect the statistics
	std::map<std::string,uint64_t> labels; std::unordered_set<uint64_t> distinct;
	std::vector<std::vector<uint32_t>> samples;
	for (int w = 0; w < o.workers; w++)
		for (int gn = 0; gn <= gen[w]; gn++)
		{
			std::string fn = tmp + "/stats." + std::to_string(w) + "." + std::to_string(gn);
			FILE* f = fopen(fn.c_str(), "r");
			if (!f) continue;
			char k; 
			while (fscanf(f, " %c", &k) == 1)
			{
				unsigned long n;
				if (fscanf(f, "%lu", &n) != 1) break;
				if (k == 'L') { char name[256]; if (fscanf(f, " %255[^\n]", name) != 1) break; labels[name] += n; }
				else if (k == 'S') { std::vector<uint32_t> s; unsigned v; for (unsigned long i = 0; i < n && fscanf(f, "%u", &v) == 1; i++) s.push_back(v); if (samples.size() < 6) samples.push_back(s); }
				else { unsigned long h; for (unsigned long i = 0; i < n && fscanf(f, "%lx", &h) == 1; i++) distinct.insert(h); }
			}
			fclose(f);
			unlink(fn.c_str());
		}
	for (int w = 0; w < o.workers; w++) unlink((tmp + "/err." + std::to_string(w)).c_str());
	rmdir(tmp.c_str());
	uint64_t evals = 0;
	for (int w = 0; w < o.workers; w++) evals += shared[w].evaluations;
	if (!o.out.empty())
	{
		FILE* f = fopen(o.out.c_str(), "w");
		if (!f) { perror(o.out.c_str()); return 2; }
		fprintf(f, "{\"evaluations\": %lu, \"distinct_nontrivial\": %lu, \"rule\": %s, \"inconclusive\": %d, \"labels\": {", evals, distinct.size(), json_str(p.rule).c_str(), inconclusive);
		bool first = true;
		for (auto& l : labels) { fprintf(f, "%s%s: %lu", first ? "" : ", ", json_str(l.first).c_str(), l.second); first = false; }
		fprintf(f, "}, \"samples\": [");
		first = true;
		for (auto& s : samples)
		{
			if (result) break;
			std::string t = describe(p, o, s);
			if (t.size() > 3000) t = t.substr(0, 3000) + "...";
			fprintf(f, "%s%s", first ? "" : ", ", json_str(t).c_str()); first = false;
		}
		fprintf(f, "], \"wall_s\": %.2f, \"violations\": %d}\n", (now_ms()-start)/1000.0, result);
		fclose(f);
	}
	printf("%s: %lu cases, %lu distinct non-trivial, %.1fs\n", p.id, evals, distinct.size(), (now_ms()-start)/1000.0);
	return result;
}

#if defined(PBT_FUZZER)
static int	fuzz_one(const Property& p, const uint8_t* data, size_t size)
{
	static std::vector<uint32_t> rec(MaxChoices); static volatile uint32_t n;
#if defined(PBT_ALLOC_HOOKS)
	static bool hooked = !(p.leak_check || p.meter) || __sanitizer_install_malloc_and_free_hooks(malloc_hook, free_hook);
#endif
	Gen	g; g.mode = Gen::Bytes; g.bytes = data; g.nbytes = size;
	g.rec = rec.data(); g.nrec = &n;
	Ctx	c;
	try { run_one(p, g, c); }
	catch (Failure& f) { fprintf(stderr, "FAIL %s: %s\n", p.id, f.msg.c_str()); abort(); }
	return 0;
}
#define	PBT_MAIN(prop)	extern "C" int LLVMFuzzerTestOneInput(const uint8_t* d, size_t n) { static pbt::Property p = prop(); return pbt::fuzz_one(p, d, n); }
#else
#define	PBT_MAIN(prop)	int main(int argc, char** argv) { return pbt::run_main(prop(), argc, argv); }
#endif

}	// namespace pbt
