#include "pbt.hpp"
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <csignal>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

namespace pbt
{
	std::vector<prop>& registry()
	{
		static std::vector<prop> r;
		return r;
	}
	static uint64_t g_seed	= 1;
	static bool g_thorough = false;
	uint64_t run_seed() { return g_seed; }
	bool thorough() { return g_thorough; }
	void fail_at(const char* file, int line, const std::string& msg)
	{
		const char* base = std::strrchr(file, '/');
		std::ostringstream o;
		o << (base ? base + 1 : file) << ":" << line << ": " << msg;
		throw failure{ o.str() };
	}
} // namespace pbt
using namespace pbt;

namespace
{
	struct shared
	{
		std::atomic<uint64_t> progress;
		std::atomic<uint64_t> prop;
		std::atomic<uint64_t> index;
		std::atomic<uint64_t> stop;
		char msg[4096];
		std::atomic<uint64_t> failed;
		char notes[16384];
		tape t;
	};

	struct sample
	{
		std::string prop, text;
	};

	std::string jstr(const std::string& s)
	{
		std::string o = "\"";
		for (unsigned char ch : s)
		{
			if (ch == '"' || ch == '\\')
			{
				o += '\\';
				o += static_cast<char>(ch);
			}
			else if (ch < 32 || ch > 126)
			{
				char b[8];
				std::snprintf(b, sizeof b, "\\u%04x", ch);
				o += b;
			}
			else
				o += static_cast<char>(ch);
		}
		return o + "\"";
	}

	uint64_t fnv(const void* p, size_t n, uint64_t h)
	{
		auto b = static_cast<const unsigned char*>(p);
		for (size_t i = 0; i < n; i++)
			h = (h ^ b[i]) * 1099511628211ull;
		return h;
	}
	uint64_t case_seed(uint64_t seed, const char* prop, uint64_t idx)
	{
		uint64_t h = fnv(prop, std::strlen(prop), 14695981039346656037ull ^ (seed * 0x9E3779B97F4A7C15ull));
		h ^= idx * 0xD1342543DE82EF95ull;
		return splitmix(h);
	}
	// content hash of a choice sequence (64 bit)
	uint64_t tape_hash(const tape& t)
	{
		uint64_t h = 0x243F6A8885A308D3ull ^ t.n;
		for (uint64_t i = 0; i < t.n; i++)
		{
			h ^= t.v[i];
			h *= 0x9FB21C651E98DF25ull;
			h ^= h >> 32;
		}
		return h;
	}

	enum outcome
	{
		ok,
		discarded,
		failed
	};

	outcome run_case(const prop& p, Case& cs, std::string& msg)
	{
		try
		{
			p.fn(cs);
			return ok;
		}
		catch (const discard&)
		{
			return discarded;
		}
		catch (const failure& f)
		{
			msg = f.what;
			return failed;
		}
		catch (const std::exception& e)
		{
			msg = std::string("unexpected exception: ") + e.what();
			return failed;
		}
	}

	double hang_secs = 60;
	shared* now_shared = nullptr;
	Case* now_case	   = nullptr;
	int now_exit	   = 1;

	// run one choice sequence in a forked child. returns true if it fails; fills msg/notes/consumed choices
	bool probe(shared* sh, const prop& p, const std::vector<uint64_t>& choices, bool verbose, std::string& msg,
			   std::string& notes, std::vector<uint64_t>& used, double timeout)
	{
		sh->failed	 = 0;
		sh->msg[0]	 = 0;
		sh->notes[0] = 0;
		sh->t.n		 = 0;
		std::fflush(nullptr);
		pid_t pid = fork();
		if (pid == 0)
		{
			if (!verbose)
			{
				int nul = open("/dev/null", O_WRONLY);
				dup2(nul, 1);
				dup2(nul, 2);
			}
			Case cs(&sh->t, &choices);
			cs.verbose = true;
			now_shared = sh;
			now_case   = &cs;
			now_exit   = 0;
			std::string m;
			auto r = run_case(p, cs, m);
			auto n = cs.notes.str();
			std::snprintf(sh->notes, sizeof sh->notes, "%s", n.c_str());
			if (r == failed)
			{
				std::snprintf(sh->msg, sizeof sh->msg, "%s", m.c_str());
				sh->failed = 1;
			}
			else
				sh->failed = r == discarded ? 3 : 2;
			_exit(0);
		}
		int st		= 0;
		double waited = 0;
		bool hung	= false;
		for (;;)
		{
			pid_t r = waitpid(pid, &st, WNOHANG);
			if (r == pid)
				break;
			struct timespec ts = { 0, waited < 0.02 ? 200000 : 5000000 };
			nanosleep(&ts, nullptr);
			waited += static_cast<double>(ts.tv_nsec) * 1e-9;
			if (waited > timeout)
			{
				hung = true;
				kill(pid, SIGKILL);
				waitpid(pid, &st, 0);
				break;
			}
		}
		notes = sh->notes;
		used.assign(sh->t.v, sh->t.v + sh->t.n);
		if (hung)
		{
			msg = "did not terminate";
			return true;
		}
		if (sh->failed == 1)
		{
			msg = sh->msg;
			return true;
		}
		if (sh->failed == 2 || sh->failed == 3)
			return false;
		std::ostringstream o;
		if (WIFSIGNALED(st))
			o << "crashed with signal " << WTERMSIG(st);
		else
			o << "aborted with exit status " << WEXITSTATUS(st) << " (assertion or sanitizer report)";
		msg = o.str();
		return true;
	}

	std::vector<uint64_t> shrink(shared* sh, const prop& p, std::vector<uint64_t> best, double timeout)
	{
		int budget = 1200;
		timespec t0;
		clock_gettime(CLOCK_MONOTONIC, &t0);
		std::string m, n;
		std::vector<uint64_t> used;
		auto simpler = [](const std::vector<uint64_t>& a, const std::vector<uint64_t>& b)
		{ return a.size() != b.size() ? a.size() < b.size() : a < b; };
		auto attempt = [&](const std::vector<uint64_t>& cand)
		{
			timespec t1;
			clock_gettime(CLOCK_MONOTONIC, &t1);
			if (budget-- <= 0 || t1.tv_sec - t0.tv_sec > 60)
			{
				budget = 0;
				return false;
			}
			if (!probe(sh, p, cand, false, m, n, used, timeout))
				return false;
			auto u = used.empty() ? cand : used;
			if (simpler(u, best))
			{
				best = u;
				return true;
			}
			if (simpler(cand, best))
			{
				best = cand;
				return true;
			}
			return false;
		};
		bool progress = true;
		while (progress && budget > 0)
		{
			progress = false;
			// delete blocks
			for (size_t len : { 64u, 32u, 16u, 8u, 4u, 3u, 2u, 1u })
				for (size_t at = best.size(); at-- > 0 && budget > 0;)
				{
					if (at + len > best.size())
						continue;
					auto cnd = best;
					cnd.erase(cnd.begin() + static_cast<long>(at), cnd.begin() + static_cast<long>(at + len));
					if (attempt(cnd))
						progress = true;
				}
			// minimise values
			for (size_t at = 0; at < best.size() && budget > 0; at++)
			{
				if (best[at] == 0)
					continue;
				auto cnd = best;
				cnd[at]	 = 0;
				if (attempt(cnd))
				{
					progress = true;
					continue;
				}
				uint64_t lo = 0;
				while (at < best.size() && lo + 1 < best[at] && budget > 0)
				{
					cnd			 = best;
					uint64_t mid = lo + (best[at] - lo) / 2;
					cnd[at]		 = mid;
					if (attempt(cnd))
						progress = true;
					else
						lo = mid;
				}
				// also lower the entry together with deleting one following entry (sizes)
				if (at + 1 < best.size() && best[at])
				{
					cnd = best;
					cnd[at]--;
					cnd.erase(cnd.begin() + static_cast<long>(at) + 1);
					if (attempt(cnd))
						progress = true;
				}
			}
		}
		return best;
	}

	double now()
	{
		timespec t;
		clock_gettime(CLOCK_MONOTONIC, &t);
		return static_cast<double>(t.tv_sec) + static_cast<double>(t.tv_nsec) * 1e-9;
	}
} // namespace

void pbt::fail_now(const char* what)
{
	std::snprintf(now_shared->msg, sizeof now_shared->msg, "%s", what);
	if (!now_exit)
		std::snprintf(now_shared->notes, sizeof now_shared->notes, "%s", now_case->notes.str().c_str());
	now_shared->failed = 1;
	_exit(now_exit);
}

int main(int argc, char** argv)
{
	std::string out, replay_prop, replay_choices, only;
	unsigned jobs	= 8;
	double cap_secs = 240; // safety cap on generating; reported in the evidence when hit
	double scale	= 1;
	for (int a = 1; a < argc; a++)
	{
		std::string k = argv[a];
		auto v		  = [&] { return std::string(argv[++a]); };
		if (k == "--seed")
			g_seed = std::stoull(v());
		else if (k == "--thorough")
			g_thorough = true;
		else if (k == "--out")
			out = v();
		else if (k == "--jobs")
			jobs = static_cast<unsigned>(std::stoul(v()));
		else if (k == "--cap")
			cap_secs = std::stod(v());
		else if (k == "--hang")
			hang_secs = std::stod(v());
		else if (k == "--scale")
			scale = std::stod(v());
		else if (k == "--only")
			only = v();
		else if (k == "--replay")
		{
			replay_prop	   = v();
			replay_choices = v();
		}
	}
	auto& props = registry();
	const size_t shsz = sizeof(shared);
	auto map		  = [&]
	{
		void* m = mmap(nullptr, shsz, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
		return static_cast<shared*>(m);
	};

	if (!replay_prop.empty())
	{
		std::vector<uint64_t> ch;
		std::istringstream is(replay_choices);
		uint64_t x;
		while (is >> x)
			ch.push_back(x);
		for (auto& p : props)
			if (replay_prop == p.name)
			{
				auto sh = map();
				std::string m, n;
				std::vector<uint64_t> used;
				bool bad = probe(sh, p, ch, true, m, n, used, hang_secs);
				std::cout << (bad ? "FAIL " : "PASS ") << m << "\ncase: " << n << "\n";
				return bad ? 1 : 0;
			}
		std::cerr << "no such property function\n";
		return 2;
	}

	const double t_start = now();
	std::vector<shared*> sh(jobs);
	std::vector<pid_t> pid(jobs);
	std::vector<std::string> tmp(jobs);
	for (unsigned w = 0; w < jobs; w++)
	{
		sh[w] = map();
		tmp[w] = out + ".w" + std::to_string(w);
	}
	for (unsigned w = 0; w < jobs; w++)
	{
		pid[w] = fork();
		if (pid[w] != 0)
			continue;
		// ---- worker
		std::ofstream f(tmp[w], std::ios::binary);
		auto put = [&](uint64_t x) { f.write(reinterpret_cast<char*>(&x), 8); };
		auto puts_ = [&](const std::string& s)
		{
			put(s.size());
			f.write(s.data(), static_cast<std::streamsize>(s.size()));
		};
		auto* S = sh[w];
		for (size_t pi = 0; pi < props.size(); pi++)
		{
			auto& p = props[pi];
			if (!only.empty() && std::string(p.name).find(only) == std::string::npos)
				continue;
			uint64_t total = g_thorough ? p.thorough : p.quick;
			if (total > 8)
				total = std::max<uint64_t>(8, static_cast<uint64_t>(static_cast<double>(total) * scale));
			uint64_t evals = 0, disc = 0, xd = 0, capped = 0;
			std::vector<uint64_t> hashes;
			std::map<std::string, uint64_t> cls;
			std::vector<std::string> samples;
			for (uint64_t i = w; i < total; i += jobs)
			{
				if (S->stop || now() - t_start > cap_secs)
				{
					capped = 1;
					break;
				}
				S->prop	 = pi;
				S->index = i;
				S->progress++;
				Case cs(&S->t, case_seed(g_seed, p.name, i));
				now_shared = S;
				now_case   = &cs;
				cs.index   = i;
				cs.verbose = i < 3 || (i >= 17 && i < 19);
				std::string m;
				auto r = run_case(p, cs, m);
				evals += 1 + cs.extra_evals - (cs.extra_evals ? 1 : 0);
				if (r == failed)
				{
					std::snprintf(S->msg, sizeof S->msg, "%s", m.c_str());
					S->failed = 1;
					_exit(1);
				}
				if (r == discarded)
				{
					disc++;
					continue;
				}
				for (auto l : cs.classes)
					cls[l]++;
				xd += cs.extra_distinct;
				if (cs.nontrivial_ && !cs.extra_evals)
					hashes.push_back(tape_hash(S->t));
				if (cs.verbose && (cs.nontrivial_ || i >= 17) && samples.size() < 3)
				{
					auto s = cs.notes.str();
					if (!s.empty())
						samples.push_back(s.substr(0, 600));
				}
			}
			put(pi);
			put(evals);
			put(disc);
			put(xd);
			put(capped);
			put(hashes.size());
			f.write(reinterpret_cast<char*>(hashes.data()), static_cast<std::streamsize>(hashes.size() * 8));
			put(cls.size());
			for (auto& [k, n] : cls)
			{
				puts_(k);
				put(n);
			}
			put(samples.size());
			for (auto& s : samples)
				puts_(s);
		}
		f.close();
		std::fflush(nullptr);
		S->failed = 2;
		_exit(0);
	}

	// ---- parent: watch workers
	struct bad
	{
		size_t prop;
		uint64_t index;
		std::vector<uint64_t> choices;
		std::string msg;
		bool hung;
	};
	std::vector<bad> bads;
	unsigned live = jobs;
	std::vector<uint64_t> last(jobs, 0);
	std::vector<double> when(jobs, now());
	std::vector<bool> done(jobs, false);
	while (live)
	{
		for (unsigned w = 0; w < jobs; w++)
		{
			if (done[w])
				continue;
			int st;
			bool hung = false;
			pid_t r	  = waitpid(pid[w], &st, WNOHANG);
			if (r != pid[w])
			{
				if (sh[w]->progress != last[w])
				{
					last[w] = sh[w]->progress;
					when[w] = now();
				}
				if (now() - when[w] < hang_secs)
					continue;
				kill(pid[w], SIGKILL);
				waitpid(pid[w], &st, 0);
				hung = true;
			}
			done[w] = true;
			live--;
			if (!hung && sh[w]->failed == 2)
				continue;
			bad b;
			b.prop	= sh[w]->prop;
			b.index = sh[w]->index;
			b.choices.assign(sh[w]->t.v, sh[w]->t.v + sh[w]->t.n);
			b.msg  = sh[w]->failed == 1 ? sh[w]->msg : hung ? "did not terminate" : "crashed";
			b.hung = hung;
			bads.push_back(b);
			for (unsigned k = 0; k < jobs; k++)
				sh[k]->stop = 1;
		}
		struct timespec ts = { 0, 2000000 };
		nanosleep(&ts, nullptr);
	}

	// ---- merge
	struct acc
	{
		uint64_t evals = 0, disc = 0, xd = 0, capped = 0;
		std::vector<uint64_t> hashes;
		std::map<std::string, uint64_t> cls;
		std::vector<std::string> samples;
	};
	std::map<uint64_t, acc> res;
	for (unsigned w = 0; w < jobs; w++)
	{
		std::ifstream f(tmp[w], std::ios::binary);
		auto get = [&]
		{
			uint64_t x = 0;
			f.read(reinterpret_cast<char*>(&x), 8);
			return x;
		};
		auto gets_ = [&]
		{
			std::string s(static_cast<size_t>(get()), 0);
			f.read(s.data(), static_cast<std::streamsize>(s.size()));
			return s;
		};
		if (sh[w]->failed == 2)
			while (f.peek() != EOF)
			{
				auto& a = res[get()];
				a.evals += get();
				a.disc += get();
				a.xd += get();
				a.capped |= get();
				auto n	 = static_cast<size_t>(get());
				auto off = a.hashes.size();
				a.hashes.resize(off + n);
				f.read(reinterpret_cast<char*>(a.hashes.data() + off), static_cast<std::streamsize>(n * 8));
				for (auto k = get(); k; k--)
				{
					auto s = gets_();
					a.cls[s] += get();
				}
				for (auto k = get(); k; k--)
					a.samples.push_back(gets_());
			}
		f.close();
		unlink(tmp[w].c_str());
	}

	std::ostringstream j;
	j << "{\"props\":[";
	bool first = true;
	for (auto& [pi, a] : res)
	{
		std::sort(a.hashes.begin(), a.hashes.end());
		auto distinct = static_cast<uint64_t>(std::unique(a.hashes.begin(), a.hashes.end()) - a.hashes.begin()) + a.xd;
		j << (first ? "" : ",") << "{\"name\":" << jstr(props[pi].name) << ",\"evaluations\":" << a.evals
		  << ",\"discarded\":" << a.disc << ",\"distinct_nontrivial\":" << distinct << ",\"capped\":" << (a.capped ? "true" : "false")
		  << ",\"classes\":{";
		first	= false;
		bool f2 = true;
		for (auto& [k, n] : a.cls)
		{
			j << (f2 ? "" : ",") << jstr(k) << ":" << n;
			f2 = false;
		}
		j << "},\"samples\":[";
		f2 = true;
		for (auto& s : a.samples)
		{
			if (&s - a.samples.data() >= 3)
				break;
			j << (f2 ? "" : ",") << jstr(s);
			f2 = false;
		}
		j << "]}";
	}
	j << "],\"failures\":[";
	first = true;
	int rc = 0;
	if (!bads.empty())
	{
		std::sort(bads.begin(), bads.end(), [](auto& a, auto& b) { return std::make_pair(a.hung, std::make_pair(a.prop, a.index)) < std::make_pair(b.hung, std::make_pair(b.prop, b.index)); });
		size_t reported = 0;
		for (auto& b : bads)
		{
			if (reported)
				break;
			auto& p = props[b.prop];
			std::string m, n;
			std::vector<uint64_t> used;
			auto S	 = map();
			int hits = 0;
			const int tries = b.hung ? 2 : 3;
			for (int k = 0; k < tries; k++)
				hits += probe(S, p, b.choices, false, m, n, used, hang_secs) ? 1 : 0;
			auto best = b.choices;
			if (hits == tries)
			{
				if (!b.hung)
				{
					best = shrink(S, p, best, std::min(hang_secs, 10.0));
					hits = 0;
					for (int k = 0; k < tries; k++)
						hits += probe(S, p, best, false, m, n, used, hang_secs) ? 1 : 0;
				}
			}
			j << (first ? "" : ",") << "{\"prop\":" << jstr(p.name) << ",\"index\":" << b.index << ",\"confirmed\":"
			  << hits << ",\"tries\":" << tries << ",\"message\":" << jstr(m.empty() ? b.msg : m) << ",\"case\":" << jstr(n) << ",\"first_message\":" << jstr(b.msg)
			  << ",\"choices\":[";
			first = false;
			for (size_t k = 0; k < best.size(); k++)
				j << (k ? "," : "") << best[k];
			j << "]}";
			reported++;
			rc = 1;
		}
	}
	j << "],\"wall_s\":" << now() - t_start << "}\n";
	std::ofstream(out) << j.str();
	return rc;
}
