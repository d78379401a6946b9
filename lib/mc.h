// Bounded exhaustive exploration engine: indexed case spaces, crash-isolated worker pool, replay-before-report,
// evidence and violation output. Header only.
#pragma once
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <sys/personality.h>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <functional>
#include <algorithm>

namespace mc
{
typedef uint64_t u64;

inline double now(){ timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
inline u64 mix(u64 h, u64 v){ h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 33; return h; }
inline u64 hashStr(const char *s, size_t n, u64 h = 1469598103934665603ull){ for(size_t i = 0; i < n; i++){ h ^= (unsigned char)s[i]; h *= 1099511628211ull; } return mix(h, n); }
inline u64 hashStr(const std::string &s){ return hashStr(s.data(), s.size()); }

inline std::string fmt(const char *f, ...)
{
	char buf[4096]; va_list a; va_start(a, f); int n = vsnprintf(buf, sizeof(buf), f, a); va_end(a);
	if(n < (int)sizeof(buf)) return std::string(buf, n);
	std::string r(n + 1, 0); va_start(a, f); vsnprintf(&r[0], n + 1, f, a); va_end(a); r.resize(n); return r;
}

const u64 kStateSlots = 1ull << 23;
const int kMaxWorkers = 16;

struct Shared
{
	volatile u64 next;			// next case index to hand out
	volatile u64 stopFlag;
	u64 executions;				// executions of the real code compared against the oracle
	u64 transitions;			// operations/statements/steps performed
	u64 states;					// distinct canonical states/outcomes
	u64 stateOverflow;
	u64 skipped;				// cases outside the defined domain (counted, not judged)
	u64 counters[16];
	volatile u64 cur[kMaxWorkers];
	volatile u64 chunkStart[kMaxWorkers];
	u64 table[kStateSlots];
};

struct Failure { std::string space; u64 idx, chunkStart; std::string msg, key; };

struct Ctx
{
	Shared *sh = nullptr;
	int fd = -1; // failure pipe
	std::string space;
	u64 idx = 0, chunkStart = 0;
	bool thorough = false;
	bool verbose = false;
	bool failed = false;
	u64 nfail = 0;
	std::vector<std::string> failMsgs;

	void exec(u64 n = 1){ __sync_fetch_and_add(&sh->executions, n); }
	void step(u64 n = 1){ __sync_fetch_and_add(&sh->transitions, n); }
	void skip(u64 n = 1){ __sync_fetch_and_add(&sh->skipped, n); }
	void counter(int i, u64 n = 1){ __sync_fetch_and_add(&sh->counters[i], n); }
	void state(u64 h)
	{
		if(!h) h = 1;
		u64 p = h & (kStateSlots - 1);
		for(int probe = 0; probe < 64; probe++, p = (p + 1) & (kStateSlots - 1))
		{
			u64 v = sh->table[p];
			if(v == h) return;
			if(!v){ if(__sync_bool_compare_and_swap(&sh->table[p], 0, h)){ __sync_fetch_and_add(&sh->states, 1); return; } if(sh->table[p] == h) return; }
		}
		__sync_fetch_and_add(&sh->stateOverflow, 1);
	}
	// key identifies the failing input for the known-findings file
	void fail(const std::string &msg, const std::string &key = "")
	{
		failed = true;
		nfail++;
		if(failMsgs.size() < 20) failMsgs.push_back(msg);
		if(nfail > 20) return;
		if(fd >= 0)
		{
			std::string m = msg.substr(0, 3000), k = key.substr(0, 200);
			for(auto &c : k) if(c == '\n' || c == '\t') c = ' ';
			std::string rec = fmt("%llu\t%llu\t%s\t", (unsigned long long)idx, (unsigned long long)chunkStart, k.c_str()) + m;
			for(auto &c : rec) if(c == '\n') c = '\x01';
			rec += "\n";
			if(write(fd, rec.data(), rec.size()) < 0){}
		}
	}
};

struct Space
{
	std::string name;
	u64 count = 0;
	u64 chunk = 64;
	double caseTimeout = 20;
	std::function<void(Ctx&)> begin;				// called at the start of every chunk (fresh environment)
	std::function<void(u64, Ctx&)> run;				// runs one case
	std::function<std::string(u64)> describe;		// human readable text of a case
	u64 caseWeight = 1;
};

struct KnownFinding { std::string property, key, text; };

struct Engine
{
	std::string id, tier = "quick", root = "/verif", replayPath;
	std::string technique, rule;
	long seed = 1;
	int workers = 8;
	double budget = 600; // seconds; a cap, reported when hit
	bool thorough = false;
	std::vector<Space> spaces;
	std::vector<std::string> assumptions;
	std::vector<std::string> samples;
	std::map<int, std::string> counterNames;
	std::vector<std::string> only;
	std::vector<KnownFinding> known;
	Shared *sh = nullptr;
	u64 memLimitMb = 6000;
	bool keepGoing = false;
	bool listOnly = false;
	u64 singleIdx = ~0ull;

	Engine(const char *id_, int argc, char **argv) : id(id_)
	{
		setvbuf(stdout, nullptr, _IOLBF, 0);
		// remove address space randomisation so that a replay sees the same layout
		if(!getenv("MC_NOASLR"))
		{
			setenv("MC_NOASLR", "1", 1);
			int old = personality(0xffffffff);
			if(old != -1 && !(old & ADDR_NO_RANDOMIZE) && personality(old | ADDR_NO_RANDOMIZE) != -1)
				execv("/proc/self/exe", argv);
		}
		if(const char *s = getenv("VERIF_SEED")) seed = atol(s);
		if(const char *s = getenv("VERIF_TIER")) tier = s;
		if(const char *s = getenv("VERIF_ROOT")) root = s;
		if(const char *s = getenv("MC_WORKERS")) workers = atoi(s);
		for(int i = 1; i < argc; i++)
		{
			std::string a = argv[i];
			if(a == "--tier" && i + 1 < argc) tier = argv[++i];
			else if(a == "--replay" && i + 1 < argc) replayPath = argv[++i];
			else if(a == "--only" && i + 1 < argc) only.push_back(argv[++i]);
			else if(a == "--workers" && i + 1 < argc) workers = atoi(argv[++i]);
			else if(a == "--budget" && i + 1 < argc) budget = atof(argv[++i]);
			else if(a == "--keep-going") keepGoing = true;
			else if(a == "--list") listOnly = true;
			else if(a == "--idx" && i + 1 < argc) singleIdx = strtoull(argv[++i], 0, 10);
		}
		if(workers > kMaxWorkers) workers = kMaxWorkers;
		if(workers < 1) workers = 1;
		thorough = tier == "thorough";
		if(thorough && budget == 600) budget = 3 * 3600;
		sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if(sh == MAP_FAILED){ perror("mmap"); exit(3); }
		loadKnown();
	}

	void loadKnown()
	{
		// known_findings.txt lines: "known: property=<id> key=<key> :: <what fails>"   or  "fixed: property=<id> <commit> <what failed>"
		FILE *f = fopen((root + "/known_findings.txt").c_str(), "r");
		if(!f) return;
		char line[8192];
		while(fgets(line, sizeof(line), f))
		{
			std::string s = line;
			while(!s.empty() && (s.back() == '\n' || s.back() == '\r')) s.pop_back();
			if(s.compare(0, 16, "known: property=") != 0) continue;
			size_t k = s.find(" key="), t = s.find(" :: ");
			if(k == std::string::npos || t == std::string::npos) continue;
			KnownFinding kf; kf.property = s.substr(16, k - 16); kf.key = s.substr(k + 5, t - k - 5); kf.text = s.substr(t + 4);
			known.push_back(kf);
		}
		fclose(f);
	}
	bool isKnown(const std::string &key) const { if(key.empty()) return false; for(auto &k : known) if(k.property == id && k.key == key) return true; return false; }

	void add(const Space &s){ spaces.push_back(s); }

	static std::string jsonStr(const std::string &s)
	{
		std::string r = "\"";
		for(unsigned char c : s)
		{
			if(c == '"') r += "\\\""; else if(c == '\\') r += "\\\\"; else if(c == '\n') r += "\\n"; else if(c == '\t') r += "\\t"; else if(c < 32 || c >= 127) r += fmt("\\u%04x", c); else r += c;
		}
		return r + "\"";
	}

	void workerSetup(int w)
	{
		(void)w;
		struct rlimit rl;
		
#ifdef __SANITIZE_ADDRESS__
		memLimitMb = 0;
#endif
		if(memLimitMb){ rl.rlim_cur = rl.rlim_max = memLimitMb << 20; setrlimit(RLIMIT_AS, &rl); }
		rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
	}
	static void arm(double sec){ struct itimerval it; memset(&it, 0, sizeof(it)); it.it_value.tv_sec = (long)sec; it.it_value.tv_usec = (long)((sec - (long)sec) * 1e6); setitimer(ITIMER_REAL, &it, nullptr); }

	// run [from, to] (or only idx) in a forked child; returns true if the child failed on idx; msg receives the description
	bool runIsolated(Space &s, u64 from, u64 idx, std::string &msg, std::string &key, double timeout)
	{
		int p[2]; if(pipe(p)) return false;
		fflush(stdout); fflush(stderr);
		pid_t pid = fork();
		if(pid == 0)
		{
			close(p[0]); workerSetup(0);
			Ctx c; c.sh = sh; c.fd = p[1]; c.space = s.name; c.thorough = thorough; c.chunkStart = from;
			arm(timeout);
			c.idx = from;
			if(s.begin) s.begin(c);
			for(u64 i = from; i <= idx; i++){ c.idx = i; s.run(i, c); }
			_exit(0);
		}
		close(p[1]);
		std::string buf; char tmp[65536]; ssize_t n;
		while((n = read(p[0], tmp, sizeof(tmp))) > 0 || (n < 0 && errno == EINTR)) if(n > 0) buf.append(tmp, n);
		close(p[0]);
		int st = 0; waitpid(pid, &st, 0);
		bool bad = false;
		size_t pos = 0;
		while(pos < buf.size())
		{
			size_t e = buf.find('\n', pos); if(e == std::string::npos) break;
			Failure f; if(parseRec(s, buf.substr(pos, e - pos), f) && (f.idx == idx)){ if(!bad){ msg = f.msg; key = f.key; } if(!isKnown(f.key)){ msg = f.msg; key = f.key; bad = true; break; } bad = true; }
			pos = e + 1;
		}
		if(WIFSIGNALED(st)){ bad = true; msg = WTERMSIG(st) == SIGALRM ? fmt("no answer within %.0f s (hang)", timeout) : fmt("process killed by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st))); key = ""; }
		else if(WIFEXITED(st) && WEXITSTATUS(st) != 0){ bad = true; msg = fmt("process exited with code %d (sanitizer report or abort)", WEXITSTATUS(st)); key = ""; }
		return bad;
	}

	bool parseRec(Space &s, const std::string &line, Failure &f)
	{
		size_t a = line.find('\t'); if(a == std::string::npos) return false;
		size_t b = line.find('\t', a + 1); if(b == std::string::npos) return false;
		size_t c = line.find('\t', b + 1); if(c == std::string::npos) return false;
		f.space = s.name; f.idx = strtoull(line.c_str(), 0, 10); f.chunkStart = strtoull(line.c_str() + a + 1, 0, 10);
		f.key = line.substr(b + 1, c - b - 1); f.msg = line.substr(c + 1);
		for(auto &ch : f.msg) if(ch == '\x01') ch = '\n';
		return true;
	}

	std::set<std::string> knownSeen;
	std::vector<std::string> violations;
	int unconfirmed = 0;

	void handleCandidate(Space &s, Failure f)
	{
		if(!f.key.empty() && isKnown(f.key)){ knownSeen.insert(f.key); return; }
		std::string msg, key; u64 from = f.idx;
		bool ok = runIsolated(s, f.idx, f.idx, msg, key, s.caseTimeout * 2);
		if(!ok)
		{
			from = f.chunkStart;
			ok = from != f.idx && runIsolated(s, from, f.idx, msg, key, s.caseTimeout * 2 + 20);
		}
		if(!ok){ unconfirmed++; printf("UNCONFIRMED property=%s space=%s idx=%llu %s\n", id.c_str(), s.name.c_str(), (unsigned long long)f.idx, f.msg.c_str()); return; }
		if(!key.empty() && isKnown(key)){ knownSeen.insert(key); return; }
		std::string dir = root + "/replays"; mkdir(dir.c_str(), 0755);
		std::string path = dir + fmt("/%s_%s_%llu.txt", id.c_str(), s.name.c_str(), (unsigned long long)f.idx);
		FILE *o = fopen(path.c_str(), "w");
		if(o)
		{
			fprintf(o, "property=%s\nspace=%s\nfrom=%llu\nidx=%llu\ntier=%s\n", id.c_str(), s.name.c_str(), (unsigned long long)from, (unsigned long long)f.idx, tier.c_str());
			fprintf(o, "key=%s\nmessage=%s\n---\n%s\n", key.c_str(), msg.c_str(), s.describe ? s.describe(f.idx).c_str() : "");
			fclose(o);
		}
		printf("--- violation in space %s case %llu: %s\n", s.name.c_str(), (unsigned long long)f.idx, msg.c_str());
		if(!key.empty()) printf("--- key: %s\n", key.c_str());
		if(s.describe) printf("%s\n", s.describe(f.idx).substr(0, 3000).c_str());
		printf("VIOLATION property=%s replay=%s\n", id.c_str(), path.c_str());
		violations.push_back(path);
	}

	struct SpaceResult { std::string name; u64 count, done; double wall; };
	std::vector<SpaceResult> results;
	bool capped = false;

	void explore(Space &s, double deadline)
	{
		double t0 = now();
		sh->next = 0; sh->stopFlag = 0;
		for(int i = 0; i < kMaxWorkers; i++) sh->cur[i] = sh->chunkStart[i] = ~0ull;
		struct W { pid_t pid; int fd; std::string buf; };
		std::vector<W> ws(workers);
		std::vector<Failure> cands; u64 candTotal = 0; size_t handled = 0;
		std::set<u64> crashed;
		u64 resumeFrom[kMaxWorkers], resumeTo[kMaxWorkers];
		for(int i = 0; i < kMaxWorkers; i++) resumeFrom[i] = resumeTo[i] = 0;
		auto spawn = [&](int w)
		{
			int p[2]; if(pipe(p)){ perror("pipe"); exit(3); }
			fflush(stdout); fflush(stderr);
			pid_t pid = fork();
			if(pid == 0)
			{
				close(p[0]); for(auto &o : ws) if(o.fd > 0) close(o.fd);
				workerSetup(w);
				Ctx c; c.sh = sh; c.fd = p[1]; c.space = s.name; c.thorough = thorough;
				u64 a = resumeFrom[w], b = resumeTo[w];
				for(;;)
				{
					if(a >= b){ if(sh->stopFlag || now() > deadline) break; a = __sync_fetch_and_add(&sh->next, s.chunk); if(a >= s.count) break; b = std::min(a + s.chunk, s.count); }
					sh->chunkStart[w] = a; c.chunkStart = a; sh->cur[w] = a; c.idx = a;
					arm(s.caseTimeout + 5);
					if(s.begin) s.begin(c);
					for(u64 i = a; i < b; i++)
					{
						sh->cur[w] = i; c.idx = i; c.failed = false;
						arm(s.caseTimeout);
						s.run(i, c);
						if(sh->stopFlag) break;
					}
					arm(0);
					a = b;
				}
				sh->cur[w] = ~0ull;
				_exit(0);
			}
			close(p[1]); fcntl(p[0], F_SETFL, O_NONBLOCK);
			ws[w].pid = pid; ws[w].fd = p[0]; ws[w].buf.clear();
		};
		for(auto &w : ws){ w.pid = 0; w.fd = -1; }
		for(int w = 0; w < workers; w++) spawn(w);
		auto drain = [&](int w)
		{
			char tmp[65536]; ssize_t n;
			while(ws[w].fd >= 0 && (n = read(ws[w].fd, tmp, sizeof(tmp))) > 0) ws[w].buf.append(tmp, n);
			size_t pos = 0, e;
			while((e = ws[w].buf.find('\n', pos)) != std::string::npos)
			{
				Failure f; if(parseRec(s, ws[w].buf.substr(pos, e - pos), f)){ candTotal++; if(isKnown(f.key)) knownSeen.insert(f.key); else if(cands.size() < 60) cands.push_back(f); }
				pos = e + 1;
			}
			ws[w].buf.erase(0, pos);
		};
		int alive = workers;
		int maxViol = keepGoing ? 40 : 3;
		while(alive)
		{
			usleep(3000);
			for(int w = 0; w < workers; w++)
			{
				if(!ws[w].pid) continue;
				drain(w);
				int st; pid_t r = waitpid(ws[w].pid, &st, WNOHANG);
				if(r == ws[w].pid)
				{
					drain(w); close(ws[w].fd); ws[w].fd = -1; ws[w].pid = 0; alive--;
					bool crash = WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) != 0);
					u64 cur = sh->cur[w];
					if(crash && cur != ~0ull)
					{
						Failure f; f.space = s.name; f.idx = cur; f.chunkStart = sh->chunkStart[w];
						f.msg = WIFSIGNALED(st) ? fmt("worker killed by signal %d", WTERMSIG(st)) : fmt("worker exit code %d", WEXITSTATUS(st));
						candTotal++; if(cands.size() < 60) cands.push_back(f);
						resumeFrom[w] = cur + 1; resumeTo[w] = std::min((f.chunkStart / s.chunk) * s.chunk + s.chunk, s.count);
						crashed.insert(cur);
						if(!sh->stopFlag && crashed.size() < 400){ spawn(w); alive++; }
					}
				}
			}
			while(handled < cands.size() && (int)violations.size() < maxViol){ handleCandidate(s, cands[handled]); handled++; }
			if((int)violations.size() >= maxViol || (!keepGoing && !violations.empty() && now() - t0 > 30)) sh->stopFlag = 1;
			if(!violations.empty() && !keepGoing) sh->stopFlag = 1;
		}
		for(; handled < cands.size() && (int)violations.size() < maxViol; handled++) handleCandidate(s, cands[handled]);
		if(cands.size() >= 60) printf("note: %llu candidate failures in %s\n", (unsigned long long)candTotal, s.name.c_str());
		SpaceResult r; r.name = s.name; r.count = s.count; r.done = std::min((u64)sh->next, s.count); r.wall = now() - t0;
		if(r.done < s.count && violations.empty()) capped = true;
		results.push_back(r);
		printf("space %-28s cases %llu/%llu  %.1fs  states %llu transitions %llu executions %llu\n", s.name.c_str(), (unsigned long long)r.done, (unsigned long long)s.count, r.wall, (unsigned long long)sh->states, (unsigned long long)sh->transitions, (unsigned long long)sh->executions);
	}

	int finish()
	{
		double t0 = now();
		if(!replayPath.empty())
		{
			FILE *f = fopen(replayPath.c_str(), "r"); if(!f){ perror("replay"); return 3; }
			char line[4096]; std::string sp; u64 from = 0, idx = 0;
			while(fgets(line, sizeof(line), f))
			{
				if(!strncmp(line, "---", 3)) break;
				if(!strncmp(line, "space=", 6)){ sp = line + 6; sp.erase(sp.find('\n')); }
				if(!strncmp(line, "from=", 5)) from = strtoull(line + 5, 0, 10);
				if(!strncmp(line, "idx=", 4)) idx = strtoull(line + 4, 0, 10);
			}
			fclose(f);
			for(auto &s : spaces) if(s.name == sp)
			{
				std::string m, k; bool bad = runIsolated(s, from, idx, m, k, s.caseTimeout * 2 + 20);
				if(s.describe) printf("%s\n", s.describe(idx).c_str());
				if(bad && !isKnown(k)){ printf("%s\nVIOLATION property=%s replay=%s\n", m.c_str(), id.c_str(), replayPath.c_str()); return 1; }
				printf("replay: property held\n"); return 0;
			}
			printf("unknown space %s (tier?)\n", sp.c_str()); return 3;
		}
		if(listOnly){ for(auto &s : spaces) printf("%s %llu\n", s.name.c_str(), (unsigned long long)s.count); return 0; }
		if(singleIdx != ~0ull)
		{
			for(auto &s : spaces) if(only.empty() || only[0] == s.name)
			{
				std::string m, k; if(s.describe) printf("%s\n", s.describe(singleIdx).c_str());
				bool bad = runIsolated(s, singleIdx, singleIdx, m, k, 100); printf("%s %s\n", bad ? "FAIL" : "ok", m.c_str()); return bad;
			}
		}
		double deadline = now() + budget;
		u64 total = 0;
		for(auto &s : spaces)
		{
			if(!only.empty() && std::find(only.begin(), only.end(), s.name) == only.end()) continue;
			total += s.count;
			explore(s, deadline);
			if(!violations.empty() && !keepGoing) break;
			// samples: first, middle and last case of every space
			if(s.describe && s.count)
			{
				u64 pick = (s.count / 2 + 7 * (u64)seed) % s.count;
				if(samples.size() < 40) samples.push_back(s.name + "[" + fmt("%llu", (unsigned long long)pick) + "]: " + s.describe(pick).substr(0, 700));
			}
		}
		for(auto &k : known) if(k.property == id && knownSeen.count(k.key)) printf("KNOWN-FINDING: property=%s %s\n", id.c_str(), k.text.c_str());
		writeEvidence(now() - t0, total);
		if(only.empty()) printf("%s property=%s cases=%llu states=%llu transitions=%llu executions=%llu wall=%.1fs%s\n", violations.empty() ? "HELD" : "BROKEN", id.c_str(), (unsigned long long)total, (unsigned long long)sh->states, (unsigned long long)sh->transitions, (unsigned long long)sh->executions, now() - t0, capped ? " (time cap hit)" : "");
		return violations.empty() ? 0 : 1;
	}

	void writeEvidence(double wall, u64 total)
	{
		mkdir((root + "/evidence").c_str(), 0755);
		std::string p = root + "/evidence/" + id + ".json";
		FILE *o = fopen(p.c_str(), "w"); if(!o){ perror("evidence"); return; }
		fprintf(o, "{\n \"property\": \"%s\",\n \"tier\": \"%s\",\n \"seed\": %ld,\n \"level\": \"model_checking\",\n \"coverage\": {\n", id.c_str(), tier.c_str(), seed);
		fprintf(o, "  \"states\": %llu,\n  \"transitions\": %llu,\n  \"traces_validated_against_impl\": %llu,\n", (unsigned long long)sh->states, (unsigned long long)sh->transitions, (unsigned long long)sh->executions);
		fprintf(o, "  \"cases\": %llu,\n  \"skipped_outside_domain\": %llu,\n  \"state_table_overflow\": %llu,\n  \"exhaustive\": %s,\n", (unsigned long long)total, (unsigned long long)sh->skipped, (unsigned long long)sh->stateOverflow, (!capped && violations.empty()) ? "true" : "false");
		fprintf(o, "  \"rule\": %s,\n", jsonStr(rule).c_str());
		for(auto &c : counterNames) fprintf(o, "  %s: %llu,\n", jsonStr(c.second).c_str(), (unsigned long long)sh->counters[c.first]);
		fprintf(o, "  \"unconfirmed_candidates\": %d,\n", unconfirmed);
		fprintf(o, "  \"spaces\": [");
		for(size_t i = 0; i < results.size(); i++) fprintf(o, "%s\n   {\"name\": %s, \"cases\": %llu, \"explored\": %llu, \"wall_s\": %.1f}", i ? "," : "", jsonStr(results[i].name).c_str(), (unsigned long long)results[i].count, (unsigned long long)results[i].done, results[i].wall);
		fprintf(o, "\n  ],\n  \"samples\": [");
		for(size_t i = 0; i < samples.size(); i++) fprintf(o, "%s\n   %s", i ? "," : "", jsonStr(samples[i]).c_str());
		fprintf(o, "\n  ]\n },\n \"assumptions\": [");
		for(size_t i = 0; i < assumptions.size(); i++) fprintf(o, "%s%s", i ? ", " : "", jsonStr(assumptions[i]).c_str());
		fprintf(o, "],\n \"wall_s\": %.2f,\n \"violations\": %d\n}\n", wall, (int)violations.size());
		fclose(o);
	}
};
}
