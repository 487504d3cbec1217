// P24: jobs run exactly once, joins wait for all descendants, no deadlock, no use after destruction - for every
// interleaving (up to PREEMPT preemptions) of the enqueuing, worker and joining threads.
// The engine also reports every pair of unordered conflicting accesses (data races), so that interleavings between
// the synchronisation operations need not be explored separately.
#define SUBSYS (tpie::MEMORY_MANAGER | tpie::JOB_MANAGER)
#include "common.h"
#include <tpie/job.h>
#include <mutex>
#include <condition_variable>
#include <thread>
#include <memory>
#ifndef PREEMPT
#define PREEMPT 1
#endif
#ifndef WORKERS
#define WORKERS 2
#endif
#ifndef NJOBS
#define NJOBS 2
#endif
struct Gate { // jobs can be held until the gate opens
	std::mutex m; std::condition_variable c; bool isOpen = false; int waiting = 0;
	void wait() { std::unique_lock<std::mutex> l(m); ++waiting; c.notify_all(); while (!isOpen) c.wait(l); }
	void open() { std::lock_guard<std::mutex> l(m); isOpen = true; c.notify_all(); }
	void arrived(int n) { std::unique_lock<std::mutex> l(m); while (waiting < n) c.wait(l); }
};
// Plain, unsynchronised members: reading them after join() is only allowed if join() orders the reads after the job.
struct Work : tpie::job {
	int runs = 0, finished = 0, dones = 0; uint32_t in = 0, out = 0, sum = 0; // in: symbolic
	 Gate *gate = nullptr; Work *par = nullptr;
	std::vector<std::unique_ptr<Work>> kids;
	void operator()() override {
		++runs;
		if (gate) gate->wait();
		for (auto &k : kids) { k->par = this; k->enqueue(this); }
		out = in * 3 + 1; ++finished;
	}
	uint32_t total() const { uint32_t s = out; for (auto &k : kids) s += k->total(); return s; }
	void on_done() override { ++dones; sum = total(); }
	uint32_t expect() const { uint32_t s = in * 3 + 1; for (auto &k : kids) s += k->expect(); return s; }
	void check(int n) {
		SX_ASSERT(runs == n, "a job that was enqueued and joined ran exactly once");
		SX_ASSERT(finished == n, "a join returns only after the job has finished");
		SX_ASSERT(dones == n, "on_done is called exactly once for each run, before a join on the job or its ancestors returns");
		SX_ASSERT(sum == expect(), "on_done sees the results of the job and of all its descendants");
		for (auto &k : kids) k->check(n);
	}
};
static std::unique_ptr<Work> tree(const char *shape, size_t &i) { // "(...)": a job with the children between the brackets
	std::unique_ptr<Work> w(new Work); w->in = sx_val<uint32_t>("in"); ++i;
	while (shape[i] == '(') w->kids.push_back(tree(shape, i));
	++i; return w;
}
static void go(int p) { sx_sched_on(p, SXS_RACE | SXS_SPURIOUS); }
void harness() {
	sx_set_cpus(WORKERS);
	go(0);
#if ONLY == 0 // independent jobs, joined in either order, then enqueued again
	{
		Tpie t; go(PREEMPT);
		Work w[NJOBS]; for (auto &x : w) x.in = sx_val<uint32_t>("in");
		for (int r = 1; r <= ROUNDS; r++) {
			for (auto &x : w) x.enqueue();
			bool rev = sx_choice("reverse", 2), poll = sx_choice("poll", 2);
			for (int i = 0; i < NJOBS; i++) {
				Work &x = w[rev ? NJOBS - 1 - i : i];
				if (poll && x.is_done()) sx_cover("polled"); else x.join();
				x.check(r);
				SX_ASSERT(x.is_done(), "a joined job is done");
			}
		}
		go(0);
	}
#elif ONLY == 1 // job trees: the root is joined and destroyed at once
	{
		static const char *const shapes[] = SHAPES;
		size_t k = sx_choice("shape", sizeof shapes / sizeof *shapes);
		Tpie t; go(PREEMPT);
		size_t i = 0; auto root = tree(shapes[k], i);
		root->enqueue(); root->join(); root->check(1); SX_ASSERT(root->is_done(), "a joined job is done");
		if (sx_choice("again", 2)) { root->enqueue(); root->join(); root->check(2); sx_cover("again"); }
		root.reset();
		go(0);
	}
#elif ONLY == 2 // two threads enqueue and join their own and a shared job
	{
		Tpie t; go(PREEMPT);
		Work a, b, c; c.enqueue();
		{
			std::thread o([&] { b.enqueue(); c.join(); c.check(1); b.join(); b.check(1); });
			a.enqueue(); c.join(); c.check(1); a.join(); a.check(1);
			o.join();
		}
		b.check(1);
		go(0);
	}
#elif ONLY == 3 // more jobs than the queue can hold: the surplus runs in the enqueuing thread
	{
		Tpie t; go(0);
		Gate g; std::vector<std::unique_ptr<Work>> held; for (int i = 0; i < WORKERS; i++) { held.emplace_back(new Work); held.back()->gate = &g; held.back()->enqueue(); }
		g.arrived(WORKERS);
		std::vector<std::unique_ptr<Work>> w; Work parent; // parent collects the surplus jobs as its children
		for (int i = 0; i < 127; i++) { w.emplace_back(new Work); w.back()->enqueue(); SX_ASSERT(!w.back()->is_done(), "a job that has not run is not done"); }
		parent.kids.emplace_back(new Work); parent.kids.emplace_back(new Work);
		go(PREEMPT);
		size_t last = sx_choice("fill", 2);
		if (last) { w.emplace_back(new Work); w.back()->enqueue(); } // now the queue is full
		parent.enqueue(); 
		if (last) { SX_ASSERT(parent.runs == 1 && parent.kids[0]->runs == 1 && parent.kids[1]->runs == 1, "a job that does not fit the queue runs at once"); SX_ASSERT(parent.is_done(), "a job whose children have finished is done"); sx_cover("inline"); }
		g.open();
		go(0);
		parent.join(); parent.check(1);
		for (auto &x : held) { x->join(); x->check(1); }
		for (auto &x : w) { x->join(); x->check(1); }
	}
#elif ONLY == 4 // the number of workers changes between rounds, also while jobs wait in the queue
	{
		Tpie t; go(PREEMPT);
		Work w[3]; size_t n = 1 + sx_choice("workers", 3);
		w[0].enqueue(); w[1].enqueue();
		tpie::set_worker_count(n);
		w[2].enqueue();
		for (auto &x : w) { x.join(); x.check(1); }
		go(0);
		tpie::set_worker_count(WORKERS); w[0].enqueue(); w[0].join(); w[0].check(2);
	}
#elif ONLY == 5 // start-up and shut-down under all schedules, repeatedly
	for (int r = 1; r <= 2; r++) {
		go(PREEMPT);
		Tpie t;
		if (sx_choice("use", 2)) { Work w; w.enqueue(); w.join(); w.check(1); sx_cover("used"); }
	}
	go(0);
#elif ONLY == 6 // misuse is refused and leaves the job usable; processor counts
	{
		size_t cpus = sx_choice("cpus", 6); sx_set_cpus(cpus);
		SX_ASSERT(tpie::default_worker_count() == (cpus > 3 ? cpus - 1 : cpus ? cpus : 1), "one worker per processor, one processor is spared when there are more than three");
		sx_set_cpus(cpus % 2);
		Tpie t; go(PREEMPT);
		Gate g; Work a; a.gate = &g; a.enqueue(); bool thrown = false;
		try { a.enqueue(); } catch (tpie::exception &) { thrown = true; }
		SX_ASSERT(thrown, "a job that is enqueued already is refused");
		thrown = false; Work b; try { b.run(); } catch (tpie::exception &) { thrown = true; }
		SX_ASSERT(thrown && b.runs == 0, "a job that is not enqueued does not run");
		b.join(); SX_ASSERT(b.is_done(), "a job that was never enqueued is not waited for");
		g.open(); a.join(); a.check(1);
		b.enqueue(); b.join(); b.check(1);
		go(0);
	}
#elif ONLY == 7 // as many jobs as there are workers run at the same time: each waits for all the others
	{
		Tpie t; go(PREEMPT);
		struct Meet { std::mutex m; std::condition_variable c; int n = 0; } meet;
		struct Party : tpie::job { Meet *x; int runs = 0; void operator()() override { std::unique_lock<std::mutex> l(x->m); ++runs; ++x->n; x->c.notify_all(); while (x->n < WORKERS) x->c.wait(l); } } p[WORKERS];
		for (auto &x : p) { x.x = &meet; x.enqueue(); }
		for (auto &x : p) { x.join(); SX_ASSERT(x.runs == 1, "a job that was enqueued and joined ran exactly once"); }
		go(0);
	}
#endif
	go(-1);
	sx_cover("end");
}
