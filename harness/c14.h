#pragma once
// Values shared between threads: histories of the single-threaded properties, run by several threads that start from
// copies of the same values
#include	"pbt.h"
#include	<thread>
#include	<atomic>
#include	<memory>

namespace c14 {
using namespace pbt;

struct Start				// so that the threads run at the same time
{
	std::atomic<int> waiting{0};
	int		n;
	Start(int _n) : n(_n) {}
	void		wait() { waiting++; while (waiting < n) std::this_thread::yield(); }
};
struct Worker
{
	Gen		g;
	Ctx		c;
	std::string	error;
};

// H: a history. fill makes the values that will be shared, give copies them to the history of a thread, run goes on from there.
template<class H, class Fill, class Give, class Run> void	concurrent(Gen& g, Ctx& c, Fill fill, Give give, Run run)
{
	int	n = g.range(2, 4);
	H	first{g, c};
	first.quiet = g.coin();
	int	size = c.max_size;
	bool	brief = g.chance(1, 2);		// A few operations on few values: less else that orders what the threads do
	if (brief) n = g.range(2, 3);
	c.max_size = g.range(1, brief ? 3 : 8);
	fill(first);
	c.max_size = size;
	if (brief) size = g.range(1, 5);
	c.nontrivial = first.pool.size() > 0;
	PLOG(c, n << " threads go on from copies of these");
	std::vector<std::unique_ptr<Worker>> w;
	std::vector<std::unique_ptr<H>> h;
	for (int i = 0; i < n; i++)
	{
		w.emplace_back(new Worker);
		w[i]->g.rng = ((uint64_t)g.u32() << 32) | (uint64_t)g.u32();
		w[i]->c.max_size = size;
		h.emplace_back(new H{w[i]->g, w[i]->c});
		give(first, *h[i]);
	}
	Start	start(n+1);
	std::vector<std::thread> t;
	for (int i = 0; i < n; i++)
		t.emplace_back([&, i]() {
			start.wait();
			try { run(*h[i]); }
			catch (Failure& f) { w[i]->error = f.msg; }
			h[i].reset();			// Destroy them while others use what they shared
		});
	start.wait();
	first.pool.clear(); first.model.clear();
	for (auto& x : t) x.join();
	for (int i = 0; i < n; i++)
		if (!w[i]->error.empty()) PFAIL("in thread " << i << " of " << n << ": " << w[i]->error);
}
}
