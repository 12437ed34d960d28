// Explicit-state search over the real implementation (apply = call the container), exhaustive program enumeration,
// fault enumeration, and the supervising parent that turns crashes, hangs and failed checks into replayable violations.
#pragma once
#include "world.hpp"
#include <algorithm>
#include <chrono>
#include <fcntl.h>
#include <functional>
#include <signal.h>
#include <sys/wait.h>

namespace mc
{
	// ---- implemented by the system under test (uni.cpp / multi.cpp)
	struct Sys
	{
		static void reset();
		static void apply(const Op &op); // executes op on the implementation and on the model, compares the results
		static void verify();            // compares the whole observable state with the model
		static void teardown();          // destroys everything, checks nothing is left behind
		static std::string show(const Op &op);
		static std::string show_state();
		static bool may_fault(const Op &op);
	};

	struct Job
	{
		std::string name;
		int layout = 0;                 // hash layout
		std::vector<int> universe;      // keys looked up by verify()
		std::vector<Op> prefix;         // executed from the empty world
		std::vector<Op> alphabet;       // BFS: operations tried in every state
		std::uint32_t max_states = 20000, max_depth = 1000;
		std::uint32_t max_faults = 0;   // BFS: fault points tried per transition (0: no fault injection)
		std::uint32_t max_fault_depth = 1; // number of faults along one history
		std::function<void(Job &)> gen; // program enumeration instead of BFS
		std::uint32_t n_init = 0;       // which containers are created by reset (bit mask); 0: slot 0 only
		std::vector<std::uint32_t> tags;// allocator identities of the slots
		int default_tag = 0;
		std::uint32_t opt = 0;          // options for the system under test
	};
	inline const Job *g_job = nullptr;
	inline void apply_layout(const Job &j);

	inline void note_sample(const std::string &s)
	{
		if (shm->nsamples < 3)
		{
			snprintf(shm->sample[shm->nsamples], sizeof shm->sample[0], "%s", s.c_str());
			shm->nsamples = shm->nsamples + 1;
		}
	}
	inline std::string show_ops(const std::vector<Op> &v)
	{
		std::string s;
		for (auto &o : v)
		{
			if (!s.empty()) s += "; ";
			s += Sys::show(o);
		}
		return s;
	}

	class HashSet
	{
		std::vector<H128> t;
		std::vector<std::uint32_t> idx;
		std::size_t n = 0;

	public:
		HashSet() : t(1 << 12), idx(1 << 12, 0) {}
		// returns the existing index+1, or 0 after inserting
		std::uint32_t find_or_insert(H128 h, std::uint32_t val)
		{
			if ((n + 1) * 2 > t.size())
			{
				auto ot = std::move(t);
				auto oi = std::move(idx);
				t.assign(ot.size() * 2, {});
				idx.assign(ot.size() * 2, 0);
				for (std::size_t i = 0; i < ot.size(); ++i)
					if (oi[i])
					{
						std::size_t p = ot[i].a & (t.size() - 1);
						while (idx[p]) p = (p + 1) & (t.size() - 1);
						t[p] = ot[i];
						idx[p] = oi[i];
					}
			}
			std::size_t p = h.a & (t.size() - 1);
			while (idx[p])
			{
				if (t[p] == h) return idx[p];
				p = (p + 1) & (t.size() - 1);
			}
			t[p] = h;
			idx[p] = val + 1;
			++n;
			return 0;
		}
	};

	inline void verify_stable()
	{
		const auto h = world_hash();
		Sys::verify();
		MC_CHECK(W->h.stack_objs == 0, "%d temporary object(s) leaked or destroyed twice", W->h.stack_objs);
		check_heap();
		MC_CHECK(world_hash() == h, "a read-only inspection changed the container");
		shm->verified = shm->verified + 1;
	}

	inline std::vector<Op> path_to(std::uint32_t s)
	{
		std::vector<Op> p;
		while (s != 0)
		{
			p.push_back(recs[s].op);
			s = recs[s].parent;
		}
		std::reverse(p.begin(), p.end());
		return p;
	}

	inline void run_bfs(Job &j)
	{
		Snap root;
		shm->in_flight = 2;
		shm->prog_n = 0;
		Sys::reset();
		for (std::size_t i = 0; i < j.prefix.size(); ++i)
		{
			shm->prog[i] = j.prefix[i];
			shm->prog_n = static_cast<std::uint32_t>(i + 1);
			Sys::apply(j.prefix[i]);
		}
		verify_stable();
		save(root);
		std::vector<std::pair<std::uint32_t, Snap>> cur, next;
		HashSet seen;
		seen.find_or_insert(world_hash(), 0);
		std::uint32_t nstates = 1;
		recs[0] = {};
		cur.emplace_back(0, root);
		std::vector<H128> hashes{world_hash()};
		std::vector<std::uint8_t> nfaults{0};
		std::uint32_t depth = 0;
		bool capped = false;
		Snap tmp;
		Sys::teardown();
		shm->in_flight = 1;
		while (!cur.empty() && depth < j.max_depth && !capped)
		{
			for (auto &[sid, snap] : cur)
			{
				if (capped) break;
				shm->cur_state = sid;
				for (const auto &op0 : j.alphabet)
				{
					for (std::uint32_t f = 0; f <= j.max_faults; ++f)
					{
						if (f && (!Sys::may_fault(op0) || nfaults[sid] >= j.max_fault_depth)) break;
						Op op = op0;
						op.f = static_cast<std::uint8_t>(f);
						shm->cur_op = op;
						shm->progress = shm->progress + 1;
						restore(snap);
						g_fault_hit = false;
						Sys::apply(op);
						shm->transitions = shm->transitions + 1;
						if (f && !g_fault_hit) break; // fewer than f fault points in this operation
						if (f) shm->faults = shm->faults + 1;
						const auto h = world_hash();
						if (seen.find_or_insert(h, nstates)) continue;
						verify_stable();
						recs[nstates] = {sid, op};
						nfaults.push_back(static_cast<std::uint8_t>(nfaults[sid] + (f ? 1 : 0)));
						if (nstates < 200000) hashes.push_back(h);
						next.emplace_back(nstates, Snap{});
						save(next.back().second);
						if (nstates == 40 || nstates == 400 || nstates == 4000)
							note_sample(j.name + ": " + show_ops(j.prefix) + (j.prefix.empty() ? "" : "; ") + show_ops(path_to(nstates)) + " -> " + Sys::show_state());
						Sys::teardown();
						++nstates;
						shm->states = nstates;
						if (nstates >= j.max_states || nstates + 1 >= MAX_RECS)
						{
							capped = true;
							break;
						}
					}
					if (capped) break;
				}
				snap.d = {};
			}
			if (!capped) ++depth;
			cur.swap(next);
			next.clear();
		}
		shm->states = nstates;
		shm->depth = depth;
		shm->capped = capped;
		shm->fixpoint = cur.empty() && !capped;
		if (shm->nsamples == 0)
			note_sample(j.name + ": " + show_ops(j.prefix) + (j.prefix.empty() ? "" : "; ") + show_ops(path_to(nstates - 1)));
		// Conformance of save/restore: re-execute histories from scratch, without any snapshot, and compare the final states.
		shm->in_flight = 0;
		const std::uint32_t lim = std::min<std::uint32_t>(nstates, static_cast<std::uint32_t>(hashes.size()));
		const std::uint32_t step = std::max<std::uint32_t>(1, lim / 300);
		for (std::uint32_t s = 0; s < lim; s += step)
		{
			shm->progress = shm->progress + 1;
			Sys::reset();
			for (auto &o : j.prefix) Sys::apply(o);
			for (auto &o : path_to(s)) Sys::apply(o);
			if (!(world_hash() == hashes[s])) harness_error("job %s: re-executing the history of state %u from scratch does not reach the same state", j.name.c_str(), s);
			shm->validated = shm->validated + 1;
		}
		cur.clear();
	}

	// Runs one program from the empty world; verifies after every operation from index `from` on, then tears down.
	inline void run_program(const std::vector<Op> &ops, std::size_t from = 0, bool teardown = true)
	{
		shm->in_flight = 2;
		const std::size_t n = std::min<std::size_t>(ops.size(), 600);
		if (ops.size() > 600) harness_error("program too long");
		memcpy(shm->prog, ops.data(), n * sizeof(Op));
		shm->prog_n = static_cast<std::uint32_t>(n);
		shm->progress = shm->progress + 1;
		Sys::reset();
		for (std::size_t i = 0; i < n; ++i)
		{
			Sys::apply(ops[i]);
			if (i >= from) verify_stable();
		}
		shm->transitions = shm->transitions + n;
		shm->programs = shm->programs + 1;
		const auto p = shm->programs;
		if (p == 1 || p == 100 || p == 10000) note_sample(g_job->name + ": " + show_ops(ops) + " -> " + Sys::show_state());
		if (teardown) Sys::teardown();
	}
	// Shared prefix once, then many suffixes from its snapshot.
	struct Fork
	{
		Snap s;
		std::vector<Op> pre;
		explicit Fork(const std::vector<Op> &prefix) : pre(prefix)
		{
			memcpy(shm->prog, pre.data(), pre.size() * sizeof(Op));
			shm->prog_n = static_cast<std::uint32_t>(pre.size());
			shm->in_flight = 2;
			shm->progress = shm->progress + 1;
			Sys::reset();
			for (auto &o : pre) Sys::apply(o);
			verify_stable();
			save(s);
			shm->transitions = shm->transitions + pre.size();
		}
		void run(const std::vector<Op> &suf, std::size_t from = 0, bool teardown = true)
		{
			memcpy(shm->prog + pre.size(), suf.data(), suf.size() * sizeof(Op));
			shm->prog_n = static_cast<std::uint32_t>(pre.size() + suf.size());
			shm->progress = shm->progress + 1;
			restore(s);
			for (std::size_t i = 0; i < suf.size(); ++i)
			{
				Sys::apply(suf[i]);
				if (i >= from) verify_stable();
			}
			shm->transitions = shm->transitions + suf.size();
			shm->programs = shm->programs + 1;
			const auto p = shm->programs;
			if (p == 1 || p == 100 || p == 10000)
			{
				auto all = pre;
				all.insert(all.end(), suf.begin(), suf.end());
				note_sample(g_job->name + ": " + show_ops(all) + " -> " + Sys::show_state());
			}
			if (teardown) Sys::teardown();
		}
	};

	inline void run_job(Job &j)
	{
		g_job = &j;
		apply_layout(j);
		world_init();
		if (j.gen) j.gen(j);
		else run_bfs(j);
	}
	inline void replay_ops(Job &j, const std::vector<Op> &ops)
	{
		g_job = &j;
		apply_layout(j);
		world_init();
		shm->in_flight = 2;
		Sys::reset();
		for (std::size_t i = 0; i < ops.size(); ++i)
		{
			shm->prog_n = static_cast<std::uint32_t>(i + 1);
			shm->progress = shm->progress + 1;
			Sys::apply(ops[i]);
			verify_stable();
		}
		Sys::teardown();
	}

	// ---------------------------------------------------------------- supervision
	inline void shm_init()
	{
		void *p = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
		void *q = mmap(nullptr, MAX_RECS * sizeof(StateRec), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (p == MAP_FAILED || q == MAP_FAILED)
		{
			fprintf(stderr, "mmap failed\n");
			exit(3);
		}
		shm = static_cast<Shm *>(p);
		recs = static_cast<StateRec *>(q);
	}
	struct Outcome
	{
		int kind = 0; // 0 ok, 2 violation, 3 harness error
		std::string msg;
		std::vector<Op> ops;
	};
	inline Outcome supervise(const std::function<void()> &body, int stall_s)
	{
		memset(static_cast<void *>(shm), 0, sizeof *shm);
		fflush(stdout);
		const int mfd = memfd_create("err", 0);
		const pid_t pid = fork();
		if (pid == 0)
		{
			setpgid(0, 0);
			if (mfd >= 0) dup2(mfd, 2);
			const int nul = open("/dev/null", O_RDWR);
			if (nul >= 0) dup2(nul, 1);
			signal(SIGTRAP, SIG_DFL);
			body();
			shm->status = 1;
			_exit(0);
		}
		Outcome o;
		std::uint64_t last = ~0ull;
		auto t0 = std::chrono::steady_clock::now();
		int st = 0;
		bool hang = false;
		for (useconds_t nap = 200;;)
		{
			const pid_t r = waitpid(pid, &st, WNOHANG);
			if (r == pid) break;
			usleep(nap);
			if (nap < 20000) nap *= 2;
			if (shm->progress != last)
			{
				last = shm->progress;
				t0 = std::chrono::steady_clock::now();
			}
			else if (std::chrono::steady_clock::now() - t0 > std::chrono::seconds(stall_s))
			{
				hang = true;
				kill(pid, SIGKILL);
				waitpid(pid, &st, 0);
				break;
			}
		}
		std::string err;
		if (mfd >= 0)
		{
			char b[600];
			const auto n = lseek(mfd, 0, SEEK_END);
			const auto from = n > 599 ? n - 599 : 0;
			const auto k = pread(mfd, b, 599, from);
			if (k > 0) err.assign(b, static_cast<std::size_t>(k));
			close(mfd);
		}
		if (!hang && WIFEXITED(st) && WEXITSTATUS(st) == 0 && shm->status == 1) return o;
		if (hang) { o.kind = 2; o.msg = "the operation does not terminate"; }
		else if (WIFSIGNALED(st))
		{
			o.kind = 2;
			o.msg = std::string("crash, signal ") + std::to_string(WTERMSIG(st)) + " (" + strsignal(WTERMSIG(st)) + ")" + (err.empty() ? "" : ": " + err);
			if (WTERMSIG(st) == SIGKILL || WTERMSIG(st) == SIGTERM || WTERMSIG(st) == SIGXCPU) o.kind = 3;
		}
		else if (shm->status == 2) { o.kind = 2; o.msg = shm->msg; }
		else { o.kind = 3; o.msg = shm->status == 3 ? shm->msg : "abnormal exit of the explorer: " + err; }
		return o;
	}
	inline std::vector<Op> failing_ops(const Job &j)
	{
		std::vector<Op> ops;
		if (shm->in_flight == 1)
		{
			ops = j.prefix;
			auto p = path_to(static_cast<std::uint32_t>(shm->cur_state));
			ops.insert(ops.end(), p.begin(), p.end());
			ops.push_back(shm->cur_op);
		}
		else
			ops.assign(shm->prog, shm->prog + std::min<std::uint32_t>(std::uint32_t(shm->prog_n), 600u));
		return ops;
	}
	inline std::string jesc(const std::string &s)
	{
		std::string r;
		for (char c : s)
		{
			if (c == '"' || c == '\\') { r += '\\'; r += c; }
			else if (c == '\n') r += "\\n";
			else if (static_cast<unsigned char>(c) < 32 || static_cast<unsigned char>(c) > 126) r += '?';
			else r += c;
		}
		return r;
	}

	std::vector<Job> make_jobs(const std::string &prop, const std::string &tier);

	inline int engine_main(int argc, char **argv)
	{
		// run PROP TIER REPLAYDIR LABEL   |   replay FILE
		shm_init();
		const std::string mode = argc > 1 ? argv[1] : "";
		if (mode == "replay" && argc > 2)
		{
			FILE *f = fopen(argv[2], "r");
			if (!f) { fprintf(stderr, "cannot open %s\n", argv[2]); return 3; }
			char line[4096];
			std::string prop, tier, job;
			std::vector<Op> ops;
			while (fgets(line, sizeof line, f))
			{
				char a[256];
				unsigned v[8] = {};
				if (sscanf(line, "property %255s", a) == 1) prop = a;
				else if (sscanf(line, "tier %255s", a) == 1) tier = a;
				else if (sscanf(line, "job %255s", a) == 1) job = a;
				else if (sscanf(line, "op %u %u %u %u %u %u %u %u", v, v + 1, v + 2, v + 3, v + 4, v + 5, v + 6, v + 7) >= 6)
				{
					Op o;
					o.code = static_cast<std::uint8_t>(v[0]); o.c = static_cast<std::uint8_t>(v[1]); o.a = static_cast<std::uint8_t>(v[2]);
					o.b = static_cast<std::uint8_t>(v[3]); o.f = static_cast<std::uint8_t>(v[4]); o.x = static_cast<std::uint8_t>(v[5]);
					o.d = static_cast<std::uint8_t>(v[6]); o.pad = static_cast<std::uint8_t>(v[7]);
					ops.push_back(o);
				}
			}
			fclose(f);
			for (auto &j : make_jobs(prop, tier))
				if (j.name == job)
				{
					auto o = supervise([&] { replay_ops(j, ops); }, 60);
					if (o.kind == 2) printf("REPRODUCED property=%s after %u of %zu operations: %s\n", prop.c_str(), shm->prog_n, ops.size(), o.msg.c_str());
					else if (o.kind == 0) printf("not reproduced: every check passed\n");
					else printf("harness error: %s\n", o.msg.c_str());
					return o.kind == 2 ? 1 : o.kind == 0 ? 0 : 3;
				}
			fprintf(stderr, "no such job\n");
			return 3;
		}
		if (mode == "list" && argc > 3)
		{
			for (auto &j : make_jobs(argv[2], argv[3])) printf("%s\n", j.name.c_str());
			return 0;
		}
		if (mode != "run" || argc < 6) { fprintf(stderr, "usage\n"); return 3; }
		const std::string prop = argv[2], tier = argv[3], dir = argv[4], label = argv[5];
		// argv[6]: i/n (a shard of the jobs) or the name of a job
		std::string only = argc > 6 ? argv[6] : "";
		unsigned shard = 0, shards = 1, idx = 0;
		if (sscanf(only.c_str(), "%u/%u", &shard, &shards) == 2) only.clear();
		else shard = 0, shards = 1;
		int rc = 0;
		for (auto &j : make_jobs(prop, tier))
		{
			if (idx++ % shards != shard) continue;
			if (!only.empty() && j.name != only) continue;
			const auto t0 = std::chrono::steady_clock::now();
			auto o = supervise([&] { run_job(j); }, 30);
			Shm res = *shm;
			std::string replay, text;
			bool confirmed = false;
			if (o.kind == 2)
			{
				o.ops = failing_ops(j);
				const std::string msg1 = o.msg;
				auto r = supervise([&] { replay_ops(j, o.ops); }, 60);
				confirmed = r.kind == 2;
				if (confirmed)
				{
					if (shm->prog_n && shm->prog_n < o.ops.size()) o.ops.resize(shm->prog_n);
					o.msg = r.msg;
				}
				else
				{
					// not reproduced from the operation list alone: explore again, the search is deterministic
					auto r2 = supervise([&] { run_job(j); }, 60);
					const auto ops2 = r2.kind == 2 ? failing_ops(j) : std::vector<Op>{};
					confirmed = r2.kind == 2 && ops2.size() == o.ops.size() && memcmp(ops2.data(), o.ops.data(), ops2.size() * sizeof(Op)) == 0;
					o.msg = msg1 + (confirmed ? " (reproduced by exploring again)" : " (NOT reproduced)");
				}
				if (confirmed)
				{
					std::string jn = j.name;
					for (auto &ch : jn)
						if (ch == '/') ch = '_';
					replay = dir + "/" + prop + "_" + label + "_" + jn + ".replay";
					if (FILE *f = fopen(replay.c_str(), "w"))
					{
						fprintf(f, "property %s\ntier %s\nbinary %s\njob %s\n# %s\n", prop.c_str(), tier.c_str(), label.c_str(), j.name.c_str(), jesc(o.msg).c_str());
						for (auto &p : o.ops) fprintf(f, "op %u %u %u %u %u %u %u %u  # %s\n", p.code, p.c, p.a, p.b, p.f, p.x, p.d, p.pad, Sys::show(p).c_str());
						fclose(f);
					}
					text = show_ops(o.ops);
				}
			}
			const double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
			printf("{\"job\":\"%s\",\"binary\":\"%s\",\"kind\":\"%s\",\"msg\":\"%s\",\"ops\":\"%s\",\"replay\":\"%s\",\"states\":%llu,\"transitions\":%llu,\"programs\":%llu,\"faults\":%llu,\"validated\":%llu,\"verified\":%llu,\"distinct\":%llu,\"fixpoint\":%u,\"depth\":%u,\"capped\":%u,\"obs\":\"%016llx\",\"max_elems\":%u,\"max_buckets\":%u,\"wall\":%.3f,\"samples\":[",
			       jesc(j.name).c_str(), jesc(label).c_str(), o.kind == 0 ? "ok" : o.kind == 2 ? (confirmed ? "violation" : "unconfirmed") : "error", jesc(o.msg).c_str(), jesc(text.size() > 1500 ? text.substr(text.size() - 1500) : text).c_str(), jesc(replay).c_str(),
			       (unsigned long long) res.states, (unsigned long long) res.transitions, (unsigned long long) res.programs, (unsigned long long) res.faults, (unsigned long long) res.validated, (unsigned long long) res.verified, (unsigned long long) res.distinct, res.fixpoint, res.depth, res.capped,
			       (unsigned long long) res.obs_hash, res.max_elems, res.max_buckets, dt);
			for (unsigned i = 0; i < res.nsamples; ++i) printf("%s\"%s\"", i ? "," : "", jesc(res.sample[i]).c_str());
			printf("]}\n");
			fflush(stdout);
			if (o.kind == 2 && confirmed) rc = 1;
			else if (o.kind != 0 && rc == 0) rc = 3;
		}
		return rc;
	}
}
