// Latches, conditions and threads
#include	"pbt.h"
#include	<thread.h>
#include	<condition.h>
#include	<thread>
#include	<memory>
#include	<mutex>
#include	<set>

namespace c26 {
using namespace pbt;

// Threads may be stuck when a check fails, so everything they share is on the heap and is then left there.
// The first complaint of any thread is kept.
struct Complaint
{
	std::mutex	m; std::string	text; std::atomic<bool> any{false};
	void		set(const std::string& s) { std::lock_guard<std::mutex> l(m); if (!any) { text = s; any = true; } }
};
static Complaint*	complaint;
#define	TCHECK(cond, expr)	do { if (!(cond)) { std::ostringstream _o; _o << "[threads] " << expr; complaint->set(_o.str()); } } while (0)

static int const	patience_s = 30;
template<class P> static void	await(P done, const char* what)
{
	uint64_t	start = now_ms();
	for (int i = 0; !done(); i++)
	{
		if (complaint->any) break;
		if (i < 200) std::this_thread::yield(); else usleep(i < 2000 ? 50 : 2000);
		if (now_ms()-start > patience_s*1000)
			PFAIL("[threads] " << what << " has not happened after " << patience_s << " s");
	}
	if (complaint->any) { std::lock_guard<std::mutex> l(complaint->m); throw Failure{complaint->text}; }
}
// How many threads: usually a handful, rarely a crowd
static int	crowd(Gen& g, Ctx& c, int lo, int hi) { if (!g.chance(1, 40)) return g.range(lo, hi); c.label("crowd"); return g.range(hi, 40); }
static void	dawdle(int how)
{
	if (how == 1) std::this_thread::yield();
	else if (how == 2) { for (volatile int i = 0; i < 300; i = i+1) ; }
	else if (how == 3) usleep(100);
}

// --- exclusion: random histories on a few latches ---
struct LatchOp { int op, latch, pause; };
struct Exclusion
{
	Latch	latch[3]; int owner[3] = {0, 0, 0}; long counter[3] = {0, 0, 0};
	std::atomic<long>	gained[3]; std::atomic<int> ready{0}, done{0}; int n = 0;
	std::vector<std::vector<LatchOp>> ops;
	Exclusion() { for (auto& a : gained) a = 0; }
	void	run(int me)
	{
		bool	mine[3] = {false, false, false};
		ready++;
		while (ready < n) if (n > 6) std::this_thread::yield();
		auto gain = [&](int l, const char* how)
		{
			mine[l] = true; gained[l]++;
			TCHECK(owner[l] == 0, "thread " << me << " gained latch " << l << " by " << how << " while thread " << owner[l] << " held it");
			owner[l] = me; counter[l]++;
		};
		auto drop = [&](int l)
		{
			TCHECK(owner[l] == me, "latch " << l << " held by thread " << me << " was also gained by thread " << owner[l]);
			owner[l] = 0; mine[l] = false;
			latch[l].leave();
		};
		for (auto& o : ops[me-1])
		{
			int l = o.latch; bool higher = false;
			for (int k = l; k < 3; k++) higher |= mine[k];
			switch (o.op)
			{
			case 0: if (!higher) { latch[l].enter(); gain(l, "enter"); } break;
			case 1:
			{
				bool ok = latch[l].probe();
				if (mine[l]) TCHECK(!ok, "a probe of a latch which this thread holds succeeded");
				else if (ok) gain(l, "probe");
				break;
			}
			case 2: if (mine[l]) drop(l); break;
			case 3: { bool h = latch[l].holding(); TCHECK(h == mine[l], "holding is " << h << " in thread " << me << " for a latch it " << (mine[l] ? "holds" : "does not hold")); break; }
			case 4:		// A latch of its own
			{
				Latch	own;
				TCHECK(!own.holding(), "a new latch is held");
				own.enter(); TCHECK(own.holding() && !own.probe(), "a latch just entered is not held, or can be gained again");
				own.leave(); TCHECK(!own.holding() && own.probe(), "a latch just left is held, or cannot be gained"); own.leave();
				break;
			}
			}
			dawdle(o.pause);
		}
		for (int l = 3; l-- > 0;) if (mine[l]) drop(l);
		done++;
	}
};
static void	exclusion(Gen& g, Ctx& c)
{
	Exclusion*	e = new Exclusion;
	e->n = crowd(g, c, 2, 6);
	int	nl = g.range(1, 3);
	for (int t = 0; t < e->n; t++)
	{
		std::vector<LatchOp> v; int last = g.raw(nl);
		for (int i = g.range(1, e->n > 6 ? 8 : 4*c.max_size); i > 0; i--)
		{
			LatchOp	o{g.weighted({4, 3, 5, 2, 1}), 0, g.weighted({6, 2, 2, 1})};
			o.latch = o.op == 0 || o.op == 1 ? last = g.raw(nl) : o.op == 2 && g.chance(3, 4) ? last : (int)g.raw(nl);
			v.push_back(o);
		}
		if (c.verbose)
		{
			std::string s; static const char* names[] = {"enter", "probe", "leave", "holding", "own"};
			for (auto& o : v) s += std::string(" ") + names[o.op] + " " + std::to_string(o.latch);
			PLOG(c, "thread " << t+1 << ":" << s);
		}
		e->ops.push_back(v);
	}
	std::vector<std::thread>* th = new std::vector<std::thread>;
	for (int t = 0; t < e->n; t++) th->emplace_back([e, t]() { e->run(t+1); });
	await([&]() { return e->done == e->n; }, "gaining a latch that the other threads always release");
	for (auto& t : *th) t.join();
	for (int l = 0; l < 3; l++)
		PCHECK(e->counter[l] == e->gained[l], "[threads] " << e->gained[l] << " gains of latch " << l << " counted " << e->counter[l] << " under the latch");
	delete th; delete e;
	c.nontrivial = true; c.label("latches");
}

// --- one thread holds it, others try ---
struct Held { Latch latch; std::atomic<int> step{0}, tried{0}, entered{0}, busy{0}; };
static void	held(Gen& g, Ctx& c)
{
	Held*	h = new Held; int n = crowd(g, c, 1, 4), inside = g.raw(3);
	bool	byprobe = g.coin();
	PLOG(c, "main " << (byprobe ? "probes" : "enters") << ", " << n << " others probe, then wait");
	if (byprobe) PCHECK(h->latch.probe(), "a free latch cannot be gained by probing"); else h->latch.enter();
	auto*	th = new std::vector<std::thread>;
	for (int i = 0; i < n; i++)
		th->emplace_back([h, inside]()
		{
			TCHECK(!h->latch.holding(), "a thread which has never held a latch is told that it does");
			TCHECK(!h->latch.probe(), "a probe of a latch held by another thread succeeded");
			TCHECK(!h->latch.holding(), "a thread whose probe failed is told that it holds the latch");
			h->tried++;
			h->latch.enter();
			int b = ++h->busy; TCHECK(b == 1, b << " threads are in a latch");
			TCHECK(h->latch.holding(), "a thread which entered is told that it does not hold the latch");
			h->entered++;
			dawdle(inside);
			h->busy--;
			h->latch.leave();
			TCHECK(!h->latch.holding(), "a thread which left is told that it holds the latch");
		});
	await([&]() { return h->tried == n; }, "a probe, or a test of holding, returning while another thread holds the latch");
	dawdle(g.raw(4));
	PCHECK(h->entered == 0, "[threads] a thread entered a latch that another holds");
	PCHECK(h->latch.holding(), "the holder is told that it does not hold the latch");
	PCHECK(!h->latch.probe(), "a probe of a latch that this thread holds succeeded");
	h->latch.leave();
	await([&]() { return h->entered == n; }, "entering a latch that has been released");
	for (auto& t : *th) t.join();
	await([]() { return true; }, "");
	PCHECK(!h->latch.holding() && h->latch.probe() && h->latch.holding(), "a latch that all have left cannot be gained");
	h->latch.leave();
	delete th; delete h;
	c.nontrivial = true; c.label("held");
}

// --- conditions ---
struct Tokens { Latch latch; Condition cond[2]; int tokens[2] = {0, 0}; std::atomic<int> done{0}; };
static void	tokens(Gen& g, Ctx& c)
{
	Tokens*	s = new Tokens; int n = crowd(g, c, 1, 6), need[2] = {0, 0};
	struct W { int cond, count, timed; };
	std::vector<W> ws;
	for (int i = 0; i < n; i++) { W w{(int)g.raw(2), (int)g.range(1, 4), g.chance(1, 3)}; need[w.cond] += w.count; ws.push_back(w); PLOG(c, "waiter of " << w.count << " on condition " << w.cond << (w.timed ? ", timed" : "")); }
	auto*	th = new std::vector<std::thread>;
	for (auto w : ws)
		th->emplace_back([s, w]()
		{
			for (int k = 0; k < w.count; k++)
			{
				s->latch.enter();
				while (s->tokens[w.cond] == 0)
				{
					long delay = 3600000;
					if (w.timed) s->cond[w.cond].wait(delay, &s->latch); else s->cond[w.cond].wait(&s->latch);
					TCHECK(s->latch.holding(), "a waiter resumed without the latch");
					TCHECK(!s->latch.probe(), "a waiter resumed, and the latch was free");
					TCHECK(delay > 0, "a wait of an hour timed out");
				}
				s->tokens[w.cond]--;
				s->latch.leave();
			}
			s->done++;
		});
	while (need[0]+need[1])
	{
		int	k = need[0] == 0 ? 1 : need[1] == 0 ? 0 : (int)g.raw(2);
		int	give = g.coin() ? 1 : (int)g.range(1, need[k]); bool inside = g.coin(), all = give > 1 || g.chance(1, 4);
		need[k] -= give;
		PLOG(c, (all ? "broadcast " : "signal ") << give << " on condition " << k << (inside ? " inside" : " outside"));
		s->latch.enter();
		s->tokens[k] += give;
		if (inside) { if (all) s->cond[k].broadcast(); else s->cond[k].signal(); }
		s->latch.leave();
		if (!inside) { if (all) s->cond[k].broadcast(); else s->cond[k].signal(); }
		dawdle(g.raw(4));
	}
	await([&]() { return s->done == n; }, "the waking of every waiter that was signalled");
	for (auto& t : *th) t.join();
	delete th; delete s;
	c.nontrivial = true; c.label("conditions");
}

// Waiters known to be waiting
struct Wakers { Latch latch; Condition cond, other; int waiting = 0, resumed = 0, inside = 0; };
static void	wake(Gen& g, Ctx& c)
{
	Wakers*	s = new Wakers; int n = crowd(g, c, 1, 6); bool timed = g.coin();
	int	one = std::min((int)g.raw(n+1), 8);		// so many by signals, the rest by a broadcast
	PLOG(c, n << " waiters, " << one << " signals and a broadcast" << (timed ? ", timed waits" : ""));
	auto*	th = new std::vector<std::thread>;
	for (int i = 0; i < n; i++)
		th->emplace_back([s, timed, i]()
		{
			s->latch.enter();
			s->waiting++;
			long	delay = 1000000+i;
			if (timed) s->cond.wait(delay, &s->latch); else s->cond.wait(&s->latch);
			TCHECK(delay > 0, "a wait that was signalled timed out");
			TCHECK(s->latch.holding(), "a waiter resumed without the latch");
			int b = ++s->inside; TCHECK(b == 1, b << " waiters hold the latch");
			s->resumed++;
			dawdle(i%4);
			--s->inside;
			s->latch.leave();
		});
	auto	get = [&](int& v) { s->latch.enter(); int r = v; s->latch.leave(); return r; };
	await([&]() { return get(s->waiting) == n; }, "the latch being released by a waiter");
	s->other.broadcast(); s->other.signal();
	for (int i = 0; i < one; i++)
	{
		bool inside = g.coin();
		if (inside) s->latch.enter();
		s->cond.signal();
		if (inside) s->latch.leave();
		await([&]() { return get(s->resumed) > i; }, "the waking of a waiter by a signal");
	}
	bool inside = g.coin();
	if (inside) s->latch.enter();
	s->cond.broadcast();
	if (inside) s->latch.leave();
	await([&]() { return get(s->resumed) == n; }, "the waking of every waiter by a broadcast");
	for (auto& t : *th) t.join();
	await([]() { return true; }, "");
	delete th; delete s;
	c.nontrivial = true; c.label("wakeups");
}

static void	timeout(Gen& g, Ctx& c)
{
	Latch	latch; Condition cond, other;
	long	asked = g.chance(1, 30) ? (g.chance(1, 3) ? g.range(1900, 3100) : g.range(1000, 1060)) : g.range(1, 40);
	PLOG(c, "timed wait of " << asked << " ms");
	if (g.coin()) { cond.signal(); cond.broadcast(); }	// Nobody waits, so these have no effect
	other.broadcast();
	for (int attempt = 0; ; attempt++)
	{
		latch.enter();
		long	delay = asked;
		struct timespec	a, b, ra, rb;
		clock_gettime(CLOCK_MONOTONIC, &a); clock_gettime(CLOCK_REALTIME, &ra);
		cond.wait(delay, &latch);
		clock_gettime(CLOCK_MONOTONIC, &b); clock_gettime(CLOCK_REALTIME, &rb);
		bool	holding = latch.holding(), again = latch.probe();
		if (holding) latch.leave();
		PCHECK(holding && !again, "[threads] a wait that timed out did not gain the latch again");
		double	ms = (b.tv_sec-a.tv_sec)*1e3 + (b.tv_nsec-a.tv_nsec)/1e6, rms = (rb.tv_sec-ra.tv_sec)*1e3 + (rb.tv_nsec-ra.tv_nsec)/1e6;
		if (delay == 0)
		{
			PCHECK(ms >= asked-1 || rms >= asked-1, "[threads] a wait of " << asked << " ms timed out after " << ms << " ms");
			break;
		}
		PCHECK(delay > 0 && delay <= asked, "[threads] a wait of " << asked << " ms leaves " << delay);
		PCHECK(attempt < 5 && ms < 1000*patience_s, "[threads] a wait of " << asked << " ms ended after " << ms << " ms, with " << delay << " left, though nobody signalled");
	}
	c.nontrivial = true; c.label("timeout");
}

// --- threads ---
struct World
{
	std::mutex	m; std::set<Thread*> unjoined; std::map<Thread*, int> runs; std::set<Thread*> objects;
	std::vector<std::string> log;
};
static World*	world;
struct Plan { int pause = 0; bool exit = false; bool join_child = false; std::vector<Plan> children; int hold = 0; };
static std::atomic<int>	gate;		// threads with hold wait until it is that high
struct Body : public Thread
{
	Plan	plan; bool own; std::atomic<int> entered{0};
	Body(const Plan& p, bool o) : plan(p), own(o)
	{
		std::lock_guard<std::mutex> l(world->m);
		world->unjoined.insert(this); world->objects.insert(this);
	}
	~Body() { std::lock_guard<std::mutex> l(world->m); world->objects.erase(this); world->runs.erase(this); }
	int	run()
	{
		int e = ++entered;
		TCHECK(e == 1, "the body of a thread is being run " << e << " times");
		TCHECK(Thread::currentId() == id(), "the id of a thread is not its own");
		TCHECK(Thread::current() == this, "the current thread is not the one that is running");
		{ std::lock_guard<std::mutex> l(world->m); world->runs[this]++; }
		while (gate < plan.hold) usleep(100);
		dawdle(plan.pause);
		for (auto& p : plan.children)
		{
			Body*	b = new Body(p, plan.join_child);
			b->resume();
			dawdle(p.pause);
			if (plan.join_child)
			{
				b->join();
				check_joined(b);
				delete b;
			}
		}
		if (plan.exit)
		{
			Thread::exit(3);
			TCHECK(false, "a thread went on after its exit");
		}
		return 0;
	}
	bool	over() { thread_latch.enter(); bool e = state == Ended; thread_latch.leave(); return e; }
	static void	check_joined(Thread* t)
	{
		std::lock_guard<std::mutex> l(world->m);
		TCHECK(world->objects.count(t), "a thread was joined which does not exist");
		TCHECK(world->unjoined.erase(t) == 1, "a thread was joined which had been joined already");
		TCHECK(world->runs[t] == 1, "a thread was joined which has run its body " << world->runs[t] << " times");
	}
};
static Plan	plan(Gen& g, int depth, bool join_child, int& total)
{
	Plan	p; p.pause = g.raw(4); p.exit = g.chance(1, 5); p.join_child = join_child;
	if (total++ < 14 && depth < 2 && g.chance(1, 3))
		for (int n = g.range(1, 2); n > 0; n--) p.children.push_back(plan(g, depth+1, join_child, total));
	return p;
}
struct Driver { std::atomic<int> done{0}; std::atomic<int> returned{0}; std::string error; };
static void	threads(Gen& g, Ctx& c)
{
	delete world; world = new World; gate = 0;
	bool	join_child = g.coin();	// children are joined by their parents, or left for joinAny
	bool	any = !join_child || g.coin();
	int	total = 0, n = g.range(1, c.max_size*2);
	struct Op { int op, k, pause; Plan p; };
	std::vector<Op> ops;
	int	live = 0, most = crowd(g, c, 6, 6);
	if (most > 6) n = most+g.range(0, 20);		// many alive at once
	bool	own_any = any && join_child;	// joinAny could then take a child from its parent
	if (own_any) join_child = false;
	for (int i = 0; i < n; i++)
	{
		Op	o; o.op = most > 6 ? g.weighted({12, 1, 1, 1, 1, 1}) : g.weighted({4, 3, 3, 2, 1, 2}); o.k = g.raw(most > 6 ? 64 : 8); o.pause = g.raw(4);
		if (o.op == 0) { if (live >= most) o.op = 1; else { live++; o.p = plan(g, own_any ? 2 : 0, join_child, total); if (g.chance(1, 3)) o.p.hold = i+1+g.raw(4); } }
		if (o.op == 2 && !any) o.op = 1;
		if (o.op == 1 || o.op == 2 || o.op == 5) live = std::max(0, live-1);
		static const char* names[] = {"start", "join", "joinAny", "delete", "pause", "await the end of and delete"};
		PLOG(c, names[o.op] << " " << o.k << (o.op == 0 ? " children " + std::to_string(o.p.children.size()) + (o.p.exit ? " exits" : "") + " hold " + std::to_string(o.p.hold) : ""));
		ops.push_back(o);
	}
	int	reapers = any && g.chance(1, 3) ? 2 : 1;
	auto*	d = new Driver;
	auto*	w = world;
	// The history is run by a thread of its own, so that a join that never returns is seen
	auto*	th = new std::thread([d, ops, any, reapers, w]()
	{
		std::vector<Body*> started, joined;	// started: not yet joined, as far as this thread knows
		auto	took = [&](Thread* t) { for (size_t i = 0; i < started.size(); i++) if (started[i] == t) started.erase(started.begin()+i); };
		auto	is_unjoined = [&](Body* b) { std::lock_guard<std::mutex> l(w->m); return w->unjoined.count(b) > 0; };
		for (size_t i = 0; i < ops.size(); i++)
		{
			gate = i;
			auto&	o = ops[i];
			switch (o.op)
			{
			case 0: { Body* b = new Body(o.p, false); b->resume(); started.push_back(b); TCHECK(b->id() != 0, "a thread that was started has no id"); break; }
			case 1:
				if (started.size())
				{
					Body* b = started[o.k % started.size()];
					gate = 1<<20;
					b->join(); Body::check_joined(b); took(b); joined.push_back(b); d->returned++;
				}
				break;
			case 2:
			{
				bool some = started.size();
				gate = 1<<20;
				Thread* t = Thread::joinAny();
				if (!t) { TCHECK(!some, "joinAny returned none, though some are not joined"); break; }
				Body::check_joined(t); took(t); joined.push_back((Body*)t); d->returned++;
				break;
			}
			case 5:		// One that nobody will join
				if (started.size())
				{
					Body* b = started[o.k % started.size()];
					gate = 1<<20;
					while (!b->over()) usleep(50);
					{ std::lock_guard<std::mutex> l(w->m); TCHECK(w->unjoined.erase(b) == 1, "a thread was joined which should not have been"); TCHECK(w->runs[b] == 1, "a thread has ended which has run its body " << w->runs[b] << " times"); }
					took(b); delete b; d->returned++;
				}
				break;
			case 3: if (joined.size()) { size_t k = o.k % joined.size(); delete joined[k]; joined.erase(joined.begin()+k); } break;
			}
			dawdle(o.pause);
		}
		gate = 1<<20;
		if (any)
		{
			std::mutex jm;
			auto reap = [&]()
			{
				for (;;)
				{
					Thread* t = Thread::joinAny();
					if (!t) break;
					Body::check_joined(t); d->returned++;
					std::lock_guard<std::mutex> l(jm); joined.push_back((Body*)t);
				}
			};
			if (reapers == 2) { std::thread a(reap), b(reap); a.join(); b.join(); }
			else reap();
		}
		else
			while (started.size()) { Body* b = started[0]; b->join(); Body::check_joined(b); took(b); joined.push_back(b); d->returned++; }
		{
			std::lock_guard<std::mutex> l(w->m);
			TCHECK(w->unjoined.empty(), "nothing was left to join, but " << w->unjoined.size() << " threads have not been joined");
		}
		if (!complaint->any)
			TCHECK(Thread::joinAny() == 0, "joinAny returned a thread when none was left");
		for (auto b : joined) delete b;
		d->done++;
	});
	await([&]() { return d->done == 1; }, "the end of a history of starts and joins");
	th->join(); delete th;
	int	r = d->returned; delete d;
	await([]() { return true; }, "");
	PCHECK(w->objects.empty() && w->unjoined.empty(), "[threads] " << w->objects.size() << " threads are left");
	if (r) c.nontrivial = true;
	c.label("threads");
}

static void	prop(Gen& g, Ctx& c)
{
	if (!complaint) complaint = new Complaint;
	complaint->any = false;
	switch (g.weighted({5, 3, 4, 3, 1, 8}))
	{
	case 0: exclusion(g, c); break;
	case 1: held(g, c); break;
	case 2: tokens(g, c); break;
	case 3: wake(g, c); break;
	case 4: timeout(g, c); break;
	case 5: threads(g, c); break;
	}
}
static Property	property()
{
	Property p; p.id = "C26"; p.fn = prop; p.nondeterministic = true; p.cpu_limit_s = 60; p.wall_limit_s = 100;
	p.rule = "a history in which at least two threads use the same latch or condition, or at least one thread is started and joined";
	return p;
}
}
#ifndef PBT_NO_MAIN
PBT_MAIN(c26::property)
#endif
