// A small property-based testing engine over choice sequences.
//
// Every case is a pure function of a sequence of integers ("choices") drawn through Source. In search mode the
// sequence is produced by a PRNG seeded with (VERIF_SEED, property, case index); a failing sequence is shrunk by
// editing the sequence itself (delete / zero / minimise) and re-running, and the shrunk sequence is the replay
// file. The same property body is driven by libFuzzer (choices decoded from bytes) when PBT_FUZZ is defined.
#ifndef PBT_HPP
#define PBT_HPP
#include <cstdint>
#include <ctime>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <functional>
#include <fstream>
#include <sstream>
#include <iomanip>
#include <algorithm>
#include <stdexcept>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>

namespace pbt
{
	inline std::uint64_t splitmix(std::uint64_t& s)
	{
		std::uint64_t z = (s += 0x9E3779B97F4A7C15ull);
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
		return z ^ (z >> 31);
	}

	class Source
	{
		bool random = false, bytes = false;
		std::uint64_t state = 0;
		std::vector<std::uint64_t> in;
		const std::uint8_t* data = nullptr; std::size_t size = 0;
		std::size_t pos = 0;
	public:
		std::vector<std::uint64_t> taken; // choices actually used
		// shared-memory copy of the choices (count first), so that they survive a crash of this process
		std::uint64_t* record = nullptr; static constexpr std::size_t RECORD_MAX = 1u << 17;
		static Source Random(std::uint64_t seed) { Source s; s.random = true; s.state = seed; return s; }
		static Source Replay(std::vector<std::uint64_t> v) { Source s; s.in = std::move(v); return s; }
		static Source Bytes(const std::uint8_t* d, std::size_t n) { Source s; s.bytes = true; s.data = d; s.size = n; return s; }

		// integer in [0, max]; 0 is the simplest value
		std::uint64_t upto(std::uint64_t max)
		{
			std::uint64_t v = 0;
			if(random)
			{
				v = splitmix(state);
				if(max != ~0ull) v %= (max + 1);
			}
			else if(bytes)
			{
				for(auto m = max; (m > 0) && (pos < size); m >>= 8) { v = (v << 8) | data[pos++]; }
				if(max != ~0ull) v %= (max + 1);
			}
			else if(pos < in.size())
			{
				v = std::min(in[pos++], max);
			}
			taken.push_back(v);
			if(record && (record[0] < RECORD_MAX)) { record[1 + record[0]] = v; record[0]++; }
			return v;
		}
		int integer(int lo, int hi) { return lo + static_cast<int>(upto(static_cast<std::uint64_t>(hi - lo))); }
		bool chance(int percent) // false is simplest
		{
			return upto(99) >= static_cast<std::uint64_t>(100 - percent);
		}
		// real in [lo, hi], lo simplest; 2^24 steps
		double real(double lo, double hi)
		{
			return lo + (hi - lo) * (static_cast<double>(upto((1u << 24) - 1)) / static_cast<double>((1u << 24) - 1));
		}
		// real in [-a, a], 0 simplest
		double sym(double a)
		{
			const auto n = upto((1u << 24) - 1);
			const double m = static_cast<double>((n + 1) >> 1) / static_cast<double>(1u << 23);
			return (n & 1) ? a * m : -a * m;
		}
		double logreal(double lo, double hi) { return lo * std::exp(real(0, std::log(hi / lo))); }
		template<typename T> T pick(std::initializer_list<T> l) { return *(l.begin() + upto(l.size() - 1)); }
	};

	struct Failure : std::runtime_error { using std::runtime_error::runtime_error; };
	struct Discard { std::string why; };

	// what one case reports about itself
	struct Case
	{
		Source& s;
		std::vector<std::string> labels;
		std::vector<std::pair<std::string, std::string>> notes;
		bool nontrivial = false;
		std::uint64_t checks = 0; // oracle comparisons made
		explicit Case(Source& src) : s(src) {}
		void label(const std::string& l) { labels.push_back(l); }
		template<typename T> void note(const std::string& k, const T& v)
		{
			std::ostringstream o; o << std::setprecision(17) << v; notes.emplace_back(k, o.str());
		}
		[[noreturn]] void fail(const std::string& m) { throw Failure(m); }
		// (the message is only built when the check fails: see REQUIRE)
		[[noreturn]] void discard(const std::string& why) { throw Discard{why}; }
	};

	inline std::string esc(const std::string& s)
	{
		std::string o;
		for(unsigned char c : s)
		{
			if(c == '"' || c == '\\') { o += '\\'; o += static_cast<char>(c); }
			else if(c == '\n') o += "\\n";
			else if(c < 0x20 || c >= 0x7f) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); o += b; }
			else o += static_cast<char>(c);
		}
		return o;
	}

	using Property = void (*)(Case&);

	struct Result { int kind; std::string msg; std::vector<std::uint64_t> taken; std::string notes; };
	// kind: 0 pass, 1 fail, 2 discard, 3 crash

	inline std::string notesJson(const Case& c)
	{
		std::string o = "{";
		for(std::size_t i = 0; i < c.notes.size(); i++)
			o += (i ? ", " : "") + ("\"" + esc(c.notes[i].first) + "\": \"" + esc(c.notes[i].second) + "\"");
		return o + "}";
	}

	inline int runOne(Property p, Source& s, Case& c, std::string& msg)
	{
		(void)s;
		try { p(c); return 0; }
		catch(const Failure& f) { msg = f.what(); return 1; }
		catch(const Discard& d) { msg = d.why; return 2; }
		catch(const std::exception& e) { msg = std::string("unexpected exception: ") + e.what(); return 1; }
	}

	// seeds of the cases that the child runs before the one it is asked for: only for failures that need what earlier
	// cases left behind in the process
	inline std::vector<std::uint64_t>& prefix() { static std::vector<std::uint64_t> v; return v; }

	// run one case in a child process (crashes and CPU-time overruns count as failures)
	inline Result runForked(Property p, const std::vector<std::uint64_t>& choices, std::uint64_t seed, bool fromSeed, int cpu)
	{
		int fd[2]; if(pipe(fd)) { std::perror("pipe"); std::exit(2); }
		static auto* const record = static_cast<std::uint64_t*>(mmap(nullptr, (Source::RECORD_MAX + 1) * 8,
			PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
		record[0] = 0;
		const auto pid = fork();
		if(pid < 0) { std::perror("fork"); std::exit(2); }
		if(pid == 0)
		{
			close(fd[0]);
			if(!std::getenv("PBT_VERBOSE")) { const int dn = open("/dev/null", O_WRONLY); dup2(dn, 1); dup2(dn, 2); }
			const auto cpuAll = static_cast<rlim_t>(cpu) + prefix().size();
			rlimit rl{cpuAll, cpuAll + 1}; setrlimit(RLIMIT_CPU, &rl);
			rlimit rc{0, 0}; setrlimit(RLIMIT_CORE, &rc);
			for(auto h : prefix()) { auto before = Source::Random(h); Case c(before); std::string msg; runOne(p, before, c, msg); }
			auto s = fromSeed ? Source::Random(seed) : Source::Replay(choices);
			s.record = record;
			Case c(s); std::string msg;
			const int k = runOne(p, s, c, msg);
			std::string out = std::to_string(k) + "\n" + esc(msg) + "\n" + notesJson(c) + "\n";
			for(auto v : s.taken) out += std::to_string(v) + " ";
			out += "\n";
			for(std::size_t o = 0; o < out.size();)
			{
				const auto w = write(fd[1], out.data() + o, out.size() - o);
				if(w <= 0) break;
				o += static_cast<std::size_t>(w);
			}
			_exit(0);
		}
		close(fd[1]);
		std::string out; char buf[65536]; ssize_t n;
		while((n = read(fd[0], buf, sizeof buf)) > 0) out.append(buf, static_cast<std::size_t>(n));
		close(fd[0]);
		int st; waitpid(pid, &st, 0);
		Result r{3, "", std::vector<std::uint64_t>(record + 1, record + 1 + record[0]), "{}"};
		if(WIFEXITED(st) && WEXITSTATUS(st) == 0 && !out.empty())
		{
			std::istringstream i(out); std::string line;
			std::getline(i, line); r.kind = std::atoi(line.c_str());
			std::getline(i, r.msg); std::getline(i, r.notes); std::getline(i, line);
			std::istringstream t(line); r.taken.clear(); std::uint64_t v; while(t >> v) r.taken.push_back(v);
		}
		else if(WIFSIGNALED(st))
		{
			const int sg = WTERMSIG(st);
			r.msg = (sg == SIGXCPU || sg == SIGKILL) ? "case used more than " + std::to_string(cpu) + " s of CPU time"
				: "crashed with signal " + std::to_string(sg);
		}
		else r.msg = "ended with status " + std::to_string(WEXITSTATUS(st)) + " (sanitizer report or abnormal exit)";
		return r;
	}

	inline bool bad(const Result& r) { return r.kind == 1 || r.kind == 3; }

	inline Result shrink(Property p, Result best, int cpu, int budget, int wall)
	{
		int tries = 0;
		const auto started = time(nullptr); // bounds the effort only
		const auto attempt = [&](const std::vector<std::uint64_t>& v)
		{
			if(time(nullptr) - started > wall) tries = budget;
			if(tries >= budget || v == best.taken) return false;
			tries++;
			auto r = runForked(p, v, 0, false, cpu);
			if(!bad(r)) return false;
			const auto less = [](const std::vector<std::uint64_t>& a, const std::vector<std::uint64_t>& b)
			{ return a.size() != b.size() ? a.size() < b.size() : a < b; };
			if(!less(r.taken, best.taken)) return false;
			best = r; return true;
		};
		bool progress = true;
		while(progress && tries < budget)
		{
			progress = false;
			for(std::size_t k = 64; k >= 1; k /= 2) // delete chunks
				for(std::size_t i = 0; i + k <= best.taken.size();)
				{
					auto v = best.taken; v.erase(v.begin() + static_cast<long>(i), v.begin() + static_cast<long>(i + k));
					if(attempt(v)) progress = true; else i += k;
					if(tries >= budget) return best;
				}
			for(std::size_t k = 32; k >= 1; k /= 2) // zero chunks
				for(std::size_t i = 0; i < best.taken.size(); i += k)
				{
					auto v = best.taken; bool any = false;
					for(auto j = i; j < std::min(i + k, v.size()); j++) { any |= v[j] != 0; v[j] = 0; }
					if(any && attempt(v)) progress = true;
					if(tries >= budget) return best;
				}
			for(std::size_t i = 0; i < best.taken.size(); i++) // minimise single values
			{
				std::uint64_t lo = 0;
				for(int it = 0; it < 12 && i < best.taken.size() && lo < best.taken[i]; it++)
				{
					auto v = best.taken; v[i] = lo + (best.taken[i] - lo) / 2;
					if(attempt(v)) progress = true; else lo = v[i] + 1;
					if(tries >= budget) return best;
				}
			}
		}
		return best;
	}

	inline std::uint64_t hashSeed(std::uint64_t seed, const char* id, std::uint64_t idx)
	{
		std::uint64_t h = 1469598103934665603ull ^ seed * 0x9E3779B97F4A7C15ull;
		for(const char* c = id; *c; c++) h = (h ^ static_cast<unsigned char>(*c)) * 1099511628211ull;
		h ^= idx * 0xD1B54A32D192ED03ull + 0x1234567;
		splitmix(h);
		return h;
	}

	inline std::vector<std::uint64_t> readChoices(const char* file, const char* key = "\"choices\"")
	{
		// replay file: JSON with "choices": [ ... ]
		std::ifstream f(file); std::stringstream b; b << f.rdbuf();
		const auto t = b.str(); const auto k = t.find(key);
		std::vector<std::uint64_t> v;
		if(k == std::string::npos && !std::strcmp(key, "\"prefix\"")) return v;
		if(k == std::string::npos) { std::fprintf(stderr, "no choices in %s\n", file); std::exit(2); }
		auto a = t.find('[', k); const auto e = t.find(']', a);
		std::string body = t.substr(a + 1, e - a - 1);
		for(auto& c : body) if(c == ',') c = ' ';
		std::istringstream i(body); std::uint64_t x; while(i >> x) v.push_back(x);
		return v;
	}

	inline std::string resultJson(const Result& r)
	{
		std::string o = "{\"kind\": " + std::to_string(r.kind) + ", \"message\": \"" + esc(r.msg) + "\", \"notes\": "
			+ (r.notes.empty() ? "{}" : r.notes) + ", \"choices\": [";
		for(std::size_t i = 0; i < r.taken.size(); i++) o += (i ? "," : "") + std::to_string(r.taken[i]);
		o += "]";
		if(!prefix().empty())
		{
			o += ", \"prefix\": [";
			for(std::size_t i = 0; i < prefix().size(); i++) o += (i ? "," : "") + std::to_string(prefix()[i]);
			o += "]";
		}
		return o + "}";
	}

	// modes:
	//   search --seed S --first I --last J --step K --stats F --mark F     cases I, I+K, ... < J
	//   shrink --seed S --index I --out F [--cpu C] [--budget B] [--first I --step K]   with the latter two: together with
	//          as few as possible of the cases before it, if it does not fail alone
	//   replay FILE                                                         exit 1 if it fails
	inline int mainLoop(int argc, char** argv, const char* id, Property p)
	{
		std::map<std::string, std::string> o; std::string mode = argc > 1 ? argv[1] : "";
		std::string arg;
		for(int i = 2; i < argc; i++)
		{
			if(!std::strncmp(argv[i], "--", 2) && i + 1 < argc) { o[argv[i] + 2] = argv[i + 1]; i++; }
			else arg = argv[i];
		}
		const auto num = [&](const char* k, std::uint64_t d) { return o.count(k) ? std::strtoull(o[k].c_str(), nullptr, 10) : d; };
		const auto seed = num("seed", 1);
		if(o.count("id")) id = o["id"].c_str();
		const int cpu = static_cast<int>(num("cpu", 20));
		if(mode == "replay")
		{
			prefix() = readChoices(arg.c_str(), "\"prefix\"");
			auto r = runForked(p, readChoices(arg.c_str()), 0, false, cpu);
			std::printf("%s\n", resultJson(r).c_str());
			return bad(r) ? 1 : 0;
		}
		if(mode == "shrink")
		{
			Result r;
			if(o.count("from")) r = runForked(p, readChoices(o["from"].c_str()), 0, false, cpu);
			else r = runForked(p, {}, hashSeed(seed, id, num("index", 0)), true, cpu);
			if(!bad(r) && o.count("first"))
			{
				// more and more of the cases before it, until it fails again
				std::vector<std::uint64_t> all; const auto started = time(nullptr); const long wall = static_cast<long>(num("wall", 120));
				for(auto i = num("first", 0); i < num("index", 0); i += num("step", 1)) all.push_back(hashSeed(seed, id, i));
				for(std::size_t m = 1;; m *= 8)
				{
					prefix().assign(all.end() - static_cast<long>(std::min(m, all.size())), all.end());
					r = runForked(p, {}, hashSeed(seed, id, num("index", 0)), true, cpu);
					if(bad(r) || m >= all.size() || time(nullptr) - started > wall) break;
				}
				if(bad(r)) for(std::size_t k = std::max<std::size_t>(1, prefix().size() / 2); k >= 1; k /= 2) // as few of them as possible
					for(std::size_t i = 0; i + k <= prefix().size() && time(nullptr) - started < wall;)
					{
						const auto have = prefix();
						prefix().erase(prefix().begin() + static_cast<long>(i), prefix().begin() + static_cast<long>(i + k));
						const auto q = runForked(p, {}, hashSeed(seed, id, num("index", 0)), true, cpu);
						if(bad(q)) r = q; else { prefix() = have; i += k; }
					}
				else prefix().clear();
			}
			if(bad(r))
			{
				r = shrink(p, r, cpu, static_cast<int>(num("budget", 1500)), static_cast<int>(num("wall", 120)));
			}
			std::ofstream f(o["out"]); f << resultJson(r) << "\n";
			return bad(r) ? 1 : 0;
		}
		if(mode != "search") { std::fprintf(stderr, "usage: search|shrink|replay\n"); return 2; }

		std::uint64_t* mark = nullptr;
		if(o.count("mark"))
		{
			const int fd = open(o["mark"].c_str(), O_RDWR | O_CREAT, 0644);
			if(fd < 0 || ftruncate(fd, 16)) { std::perror("mark"); return 2; }
			mark = static_cast<std::uint64_t*>(mmap(nullptr, 16, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
		}
		std::map<std::string, std::uint64_t> labels, discards;
		std::uint64_t n = 0, nontrivial = 0, checks = 0; std::unordered_set<std::uint64_t> distinct;
		std::vector<std::string> samples; std::string failure; std::uint64_t failIndex = 0;
		const auto started = time(nullptr); const auto deadline = static_cast<long>(num("deadline", 100000));
		for(auto i = num("first", 0); i < num("last", 100); i += num("step", 1))
		{
			if(time(nullptr) - started > deadline) { labels["stopped early by the time bound"]++; break; }
			if(mark) { mark[0] = i; mark[1] = 1; }
			// a case that does not end is stopped by SIGPROF after `cpu` seconds of CPU time
			const itimerval tv{{0, 0}, {cpu, 0}}; setitimer(ITIMER_PROF, &tv, nullptr);
			auto s = Source::Random(hashSeed(seed, id, i));
			Case c(s); std::string msg;
			const int k = runOne(p, s, c, msg);
			n++; checks += c.checks;
			if(k == 2) { discards[msg]++; continue; }
			std::set<std::string> ls(c.labels.begin(), c.labels.end());
			for(auto& l : ls) labels[l]++;
			if(c.nontrivial)
			{
				std::uint64_t h = 1469598103934665603ull; for(auto v : s.taken) h = (h ^ v) * 1099511628211ull;
				if(distinct.insert(h).second) nontrivial++;
				if(samples.size() < 2) samples.push_back(notesJson(c));
			}
			if(k == 1) { failure = msg; failIndex = i; break; }
		}
		if(mark) mark[1] = 2;
		std::ofstream f(o["stats"]);
		f << "{\"evaluations\": " << n << ", \"distinct_nontrivial\": " << nontrivial << ", \"oracle_checks\": " << checks << ", \"labels\": {";
		bool first = true;
		for(auto& l : labels) { f << (first ? "" : ", ") << "\"" << esc(l.first) << "\": " << l.second; first = false; }
		f << "}, \"discarded\": {"; first = true;
		for(auto& l : discards) { f << (first ? "" : ", ") << "\"" << esc(l.first) << "\": " << l.second; first = false; }
		f << "}, \"samples\": ["; first = true;
		for(auto& l : samples) { f << (first ? "" : ", ") << l; first = false; }
		f << "]";
		if(!failure.empty()) f << ", \"failure\": \"" << esc(failure) << "\", \"index\": " << failIndex;
		f << "}\n";
		return failure.empty() ? 0 : 1;
	}
}

#define REQUIRE(CASE, COND, ...) do { (CASE).checks++; if(!(COND)) (CASE).fail(__VA_ARGS__); } while(false)

#ifdef PBT_FUZZ
namespace pbt
{
	inline int fuzzOne(Property p, const std::uint8_t* d, std::size_t n)
	{
		if(const char* f = std::getenv("PBT_FUZZ_CHOICES"))
		{
			// decode an artifact that crashed: run it in a child and write down the choices it drew
			auto* const rec = static_cast<std::uint64_t*>(mmap(nullptr, (Source::RECORD_MAX + 1) * 8,
				PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
			rec[0] = 0;
			const int pid = fork();
			if(pid == 0)
			{
				auto s = Source::Bytes(d, n); s.record = rec;
				Case c(s); std::string msg; runOne(p, s, c, msg); _exit(0);
			}
			int st; waitpid(pid, &st, 0);
			const Result r{3, "artifact", std::vector<std::uint64_t>(rec + 1, rec + 1 + rec[0]), "{}"};
			std::ofstream o(f); o << resultJson(r) << "\n";
			munmap(rec, (Source::RECORD_MAX + 1) * 8);
			return 0;
		}
		auto s = Source::Bytes(d, n); Case c(s); std::string msg;
		const int k = runOne(p, s, c, msg);
		if(k == 1)
		{
			const Result r{1, msg, s.taken, notesJson(c)};
			if(const char* f = std::getenv("PBT_FUZZ_OUT")) { std::ofstream o(f); o << resultJson(r) << "\n"; }
			std::fprintf(stderr, "PBT FAILURE: %s\n", msg.c_str()); std::abort();
		}
		return k == 2 ? -1 : 0;
	}
}
#define PBT_MAIN(ID, PROP) extern "C" int LLVMFuzzerTestOneInput(const std::uint8_t* d, std::size_t n) { return pbt::fuzzOne(PROP, d, n); }
#else
#define PBT_MAIN(ID, PROP) int main(int argc, char** argv) { return pbt::mainLoop(argc, argv, ID, PROP); }
#endif
#endif
