// Runner: seeded search over simulated executions, minimisation, replay.
#include "sim.h"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdlib>
#include <ctime>
#include <fcntl.h>
#include <fstream>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

// ---- library instrumentation: step budget and edge coverage ------------------
static u8 *g_edges;
static u32 g_nguards;
extern "C" {
u64 g_steps, g_step_limit = ~0ull;
void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b)
{
	if (a == b || *a) return;
	for (uint32_t *x = a; x < b; x++) *x = ++g_nguards;
}
void gsim_step_overrun(void) { g_step_limit = ~0ull; longjmp(g_step_jmp, 1); }
#ifdef GSIM_CONC
void gsim_block_hook(uint32_t id);
#endif
void __sanitizer_cov_trace_pc_guard(uint32_t *g)
{
	if (g_edges && !g_edges[*g & 0xFFFF]) g_edges[*g & 0xFFFF] = 1; // shared: write once
	if (++g_steps > g_step_limit) gsim_step_overrun();
#ifdef GSIM_CONC
	gsim_block_hook(*g);
#endif
}
__attribute__((used)) const char *__asan_default_options(void) { return "detect_leaks=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=0:symbolize=0"; }
}

static double now_s()
{
	struct timespec t;
	clock_gettime(CLOCK_MONOTONIC, &t);
	return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec;
}
static std::string slurp(const std::string &p)
{
	std::ifstream f(p, std::ios::binary);
	std::stringstream s;
	s << f.rdbuf();
	return s.str();
}
static std::string jesc(const std::string &s)
{
	std::string o;
	char b[8];
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
		else if (c < 0x20 || c >= 0x7F) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
		else o += (char)c;
	}
	return o;
}

// ---- one execution -----------------------------------------------------------
struct Outcome {
	bool bad = false;
	std::string cls, msg;
	u64 hash = 0;
	std::vector<std::string> known;
};
static std::set<std::string> g_listed; // known findings listed for the property

static Outcome run_plan(const World &w, const Plan &p, Stats *st, bool trace)
{
	Outcome o;
	Ctx c;
	c.st = st;
	c.trace = trace;
	c.count(S_RUNS);
	arena_salt(p.seed);
	try {
		w.exec(p, c);
		for (auto &k : c.known)
			if (!g_listed.count(k)) { o.bad = true; o.cls = k; o.msg = "finding " + k + " occurs and is not listed"; break; }
	} catch (Violation &v) {
		o.bad = true; o.cls = v.cls; o.msg = v.msg;
	}
	std::sort(c.known.begin(), c.known.end());
	c.known.erase(std::unique(c.known.begin(), c.known.end()), c.known.end());
	o.known = c.known;
	o.hash = c.hash;
	return o;
}

// Time limits count the processor time of the run, not the clock on the wall, so
// that a busy machine is not taken for a run that does not finish.
static double cpu_of(pid_t pid)
{
	clockid_t k;
	struct timespec t;
	if (clock_getcpuclockid(pid, &k) || clock_gettime(k, &t)) return 0;
	return (double)t.tv_sec + (double)t.tv_nsec * 1e-9;
}
static const double WALL = 8; // wall clock allowed per second of processor time

struct Prelude { u64 base = 0, start = 0, step = 1, count = 0; };
// run in a forked child; death is an outcome too
static Outcome run_forked(const World &w, const Plan &p, const Prelude &pre, int twice, double limit_s)
{
	int fd[2];
	if (pipe(fd)) { perror("pipe"); exit(3); }
	fflush(nullptr);
	pid_t pid = fork();
	if (pid < 0) { perror("fork"); exit(3); }
	if (!pid) {
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		close(fd[0]);
		int nul = open("/dev/null", O_WRONLY);
		dup2(nul, 1);
		int ef = open("/dev/null", O_WRONLY);
		dup2(ef, 2);
		for (u64 i = 0; i < pre.count; i++) {
			Plan q = make_plan(w, pre.base, pre.start + i * pre.step);
			run_plan(w, q, nullptr, false);
		}
		Outcome o = run_plan(w, p, nullptr, false);
		if (twice && !o.bad) {
			Outcome o2 = run_plan(w, p, nullptr, false);
			if (o2.hash != o.hash) { o = o2; o.bad = true; o.cls = "nondeterminism"; o.msg = "the same execution repeated in one process gives different results"; }
		}
		std::string s;
		s += o.bad ? 'B' : 'G';
		char b[32];
		snprintf(b, sizeof b, "%016llx", (unsigned long long)o.hash);
		s += b;
		s += o.cls + "\n" + o.msg;
		size_t off = 0;
		while (off < s.size()) { ssize_t n = write(fd[1], s.data() + off, s.size() - off); if (n <= 0) break; off += (size_t)n; }
		_exit(0);
	}
	close(fd[1]);
	std::string s;
	char buf[4096];
	double t0 = now_s();
	bool hung = false;
	fcntl(fd[0], F_SETFL, O_NONBLOCK);
	for (;;) {
		ssize_t n = read(fd[0], buf, sizeof buf);
		if (n > 0) { s.append(buf, (size_t)n); continue; }
		if (n == 0) break;
		if (errno != EAGAIN && errno != EINTR) break;
		if (cpu_of(pid) > limit_s || now_s() - t0 > WALL * limit_s) { hung = true; kill(pid, SIGKILL); break; }
		usleep(200);
	}
	close(fd[0]);
	int stt = 0;
	waitpid(pid, &stt, 0);
	Outcome o;
	if (hung) { o.bad = true; o.cls = "hang"; o.msg = "the execution does not finish"; return o; }
	if (s.size() < 17) {
		o.bad = true;
		if (WIFEXITED(stt) && WEXITSTATUS(stt) == 77) { o.cls = "memory"; o.msg = "the library accessed memory outside what the call may touch (address checker stopped the run)"; }
		else { o.cls = "crash"; o.msg = "the process died"; }
		return o;
	}
	o.bad = s[0] == 'B';
	o.hash = strtoull(s.substr(1, 16).c_str(), 0, 16);
	size_t nl = s.find('\n', 17);
	o.cls = s.substr(17, nl - 17);
	o.msg = nl == std::string::npos ? "" : s.substr(nl + 1);
	return o;
}

// ---- minimisation ------------------------------------------------------------
struct Minimiser {
	const World &w;
	Prelude pre;
	std::string cls;
	int twice;
	double deadline;
	size_t tries = 0, kept = 0;
	bool still(const Plan &p)
	{
		if (now_s() > deadline) return false;
		tries++;
		Outcome o = run_forked(w, p, pre, twice, 10);
		if (o.bad && o.cls == cls) { kept++; return true; }
		return false;
	}
	template <class V, class F> bool shrink_vec(V &v, F ok)
	{
		bool any = false;
		for (size_t n = v.size(); n >= 1; n /= 2) {
			for (size_t i = 0; i < v.size();) {
				size_t m = std::min(n, v.size() - i);
				V t(v.begin(), v.begin() + (long)i);
				t.insert(t.end(), v.begin() + (long)(i + m), v.end());
				if (ok(t)) { v = t; any = true; } else i += m;
				if (now_s() > deadline) return any;
			}
		}
		return any;
	}
	Plan run(Plan p)
	{
		bool again = true;
		while (again && now_s() < deadline) {
			again = false;
			if (p.ops.size() && shrink_vec(p.ops, [&](const std::vector<Op> &t) { Plan q = p; q.ops = t; return still(q); })) again = true;
			for (size_t i = 0; i < p.ops.size(); i++) {
				if (!p.ops[i].t.empty() && shrink_vec(p.ops[i].t, [&](const Cps &t) { Plan q = p; q.ops[i].t = t; return still(q); })) again = true;
				for (size_t j = 0; j < p.ops[i].t.size() && p.ops[i].t.size() <= 64; j++) {
					for (u32 x : {(u32)'a', (u32)' '}) {
						if (p.ops[i].t[j] == 'a' || p.ops[i].t[j] == x) continue;
						Plan q = p; q.ops[i].t[j] = x;
						if (still(q)) { p = q; break; }
					}
				}
				if (p.ops[i].k == OP_CUT && p.ops[i].a.size() > 1 && shrink_vec(p.ops[i].a, [&](const std::vector<i64> &t) { Plan q = p; q.ops[i].a = t; return !t.empty() && still(q); })) again = true;
				for (size_t j = 0; j < p.ops[i].a.size(); j++) {
					for (i64 v : {(i64)0, p.ops[i].a[j] / 2, p.ops[i].a[j] - 1}) {
						if (v < 0 || v >= p.ops[i].a[j]) continue;
						Plan q = p; q.ops[i].a[j] = v;
						if (still(q)) { p = q; again = v != 0 && p.ops[i].a[j] > 0 ? again : again; break; }
					}
				}
			}
		}
		return p;
	}
};

// ---- check -------------------------------------------------------------------
struct Slot {
	Stats st;
	volatile int done;
	int bad;
	u64 index;
	char cls[64], msg[3000];
	char known[256];
	u64 det_checked;
};
static const double HANG_S = 40;

static std::string arg(int argc, char **argv, const char *k, const char *d)
{
	for (int i = 2; i + 1 < argc; i++) if (!strcmp(argv[i], k)) return argv[i + 1];
	return d;
}
static u64 popcount_map(const u8 *m, size_t n) { u64 c = 0; for (size_t i = 0; i < n; i++) c += (u64)__builtin_popcount(m[i]); return c; }

static void write_replay(const std::string &path, const Plan &p, const Outcome &o, const Prelude &pre, u64 base, u64 index)
{
	std::string s = p.str();
	s.resize(s.size() - 4); // before "end\n"
	std::ofstream f(path);
	f << s << "class " << o.cls << "\n";
	if (pre.count) f << "prelude " << pre.base << " " << pre.start << " " << pre.step << " " << pre.count << "\n";
	f << "end\n# found with base seed " << base << ", run " << index << "\n";
	std::string m = o.msg;
	std::replace(m.begin(), m.end(), '\n', ' ');
	f << "# " << m << "\n";
}

static int do_check(int argc, char **argv)
{
	std::string prop = argv[2];
	const World *w = find_world(prop);
	if (!w) { fprintf(stderr, "no world %s\n", prop.c_str()); return 3; }
	u64 base = strtoull(arg(argc, argv, "--seed", "1").c_str(), 0, 10);
	double secs = atof(arg(argc, argv, "--seconds", "30").c_str());
	int nw = atoi(arg(argc, argv, "--workers", "8").c_str());
	u64 minruns = strtoull(arg(argc, argv, "--min-runs", "0").c_str(), 0, 10);
	u64 maxruns = strtoull(arg(argc, argv, "--runs", "0").c_str(), 0, 10);
	std::string out = arg(argc, argv, "--out", "/dev/null"), rdir = arg(argc, argv, "--replays", ".");
	mkdir(rdir.c_str(), 0777);
	std::string self = argv[0];

	auto shm = [](size_t n) { void *p = mmap(0, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (p == MAP_FAILED) { perror("mmap"); exit(3); } return p; };
	Slot *slots = (Slot *)shm(sizeof(Slot) * (size_t)nw);
	g_distinct = (Distinct *)shm(sizeof(Distinct));
	g_cpseen = (u8 *)shm(0x110000 / 8);
	g_edges = (u8 *)shm(1 << 16);
	volatile int *stop = (volatile int *)shm(4096);

	double t0 = now_s();
	std::vector<pid_t> pids((size_t)nw);
	std::vector<u64> start((size_t)nw);
	fflush(stdout);
	for (int i = 0; i < nw; i++) {
		pid_t pid = fork();
		if (pid < 0) { perror("fork"); return 3; }
		if (!pid) {
			prctl(PR_SET_PDEATHSIG, SIGKILL);
			int nul = open("/dev/null", O_WRONLY);
			dup2(nul, 2);
			Slot &s = slots[i];
			std::set<std::string> known;
			u64 n = 0;
			for (u64 ix = (u64)i;; ix += (u64)nw, n++) {
				if (*stop || (maxruns && ix >= maxruns)) break;
				if (!(n & 3)) {
					double el = now_s() - t0;
					if (el > secs && (ix >= minruns || el > 5 * secs)) break;
				}
				s.st.cur_index = ix;
				s.st.beat++;
				Plan p = make_plan(*w, base, ix);
				Outcome o = run_plan(*w, p, &s.st, false);
				if (!o.bad && n % 61 == 7) { // repeat: same seed, same execution
					s.det_checked++;
					s.st.beat++;
					Outcome o2 = run_plan(*w, p, nullptr, false);
					if (o2.bad) o = o2;
					else if (o2.hash != o.hash) { o.bad = true; o.cls = "nondeterminism"; o.msg = "the same execution repeated in one process gives different results"; }
				}
				if (o.known.size()) for (auto &k : o.known) if (known.insert(k).second) { strncat(s.known, k.c_str(), sizeof s.known - strlen(s.known) - 2); strcat(s.known, " "); }
				if (o.bad) {
					s.bad = 1; s.index = ix;
					snprintf(s.cls, sizeof s.cls, "%s", o.cls.c_str());
					snprintf(s.msg, sizeof s.msg, "%s", o.msg.c_str());
					*stop = 1;
					break;
				}
			}
			s.done = 1;
			_exit(0);
		}
		pids[(size_t)i] = pid;
	}
	// supervise: death and hangs are attributed to the run in progress
	int left = nw;
	std::vector<u64> beat((size_t)nw, 0);
	std::vector<double> bt((size_t)nw, now_s()), bc((size_t)nw, 0);
	std::vector<bool> gone((size_t)nw, false), killed((size_t)nw, false);
	while (left) {
		usleep(20000);
		for (int i = 0; i < nw; i++) {
			size_t k = (size_t)i;
			if (gone[k]) continue;
			int stt;
			if (waitpid(pids[k], &stt, WNOHANG) == pids[k]) {
				gone[k] = true; left--;
				if (!slots[i].done && !slots[i].bad) {
					slots[i].bad = 2;
					slots[i].index = slots[i].st.cur_index;
					snprintf(slots[i].cls, sizeof slots[i].cls, "%s", WIFEXITED(stt) && WEXITSTATUS(stt) == 77 ? "memory" : WIFSIGNALED(stt) && WTERMSIG(stt) == SIGKILL ? "hang" : "crash");
					if (WIFSIGNALED(stt) && WTERMSIG(stt) == SIGKILL && !killed[k]) { fprintf(stderr, "gsim: worker killed from outside\n"); for (auto q : pids) kill(q, SIGKILL); return 3; }
					*stop = 1;
				}
				continue;
			}
			if (slots[i].st.beat != beat[k]) { beat[k] = slots[i].st.beat; bt[k] = now_s(); bc[k] = cpu_of(pids[k]); }
			else if (cpu_of(pids[k]) - bc[k] > HANG_S || now_s() - bt[k] > WALL * HANG_S) { killed[k] = true; kill(pids[k], SIGKILL); }
		}
	}
	double wall = now_s() - t0;
	// totals
	Stats tot;
	memset(&tot, 0, sizeof tot);
	u64 det = 0;
	std::set<std::string> known;
	for (int i = 0; i < nw; i++) {
		for (int k = 0; k < NCTR; k++) tot.c[k] += slots[i].st.c[k];
		det += slots[i].det_checked;
		std::istringstream is(slots[i].known);
		std::string x;
		while (is >> x) known.insert(x);
	}
	int best = -1;
	for (int i = 0; i < nw; i++) if (slots[i].bad && (best < 0 || slots[i].index < slots[best].index)) best = i;
	int rc = 0;
	std::string replay_path;
	Outcome vo;
	if (best >= 0) {
		Slot &s = slots[best];
		Plan p = make_plan(*w, base, s.index);
		std::string cls = s.cls;
		printf("gsim: %s: run %llu (seed %llu) violates: %s: %s\n", prop.c_str(), (unsigned long long)s.index, (unsigned long long)p.seed, s.cls, s.msg);
		fflush(stdout);
		Prelude pre;
		int twice = cls == "nondeterminism";
		Outcome a = run_forked(*w, p, pre, twice, HANG_S);
		bool repro = a.bad && a.cls == cls;
		if (!repro && a.bad) { cls = a.cls; repro = true; }
		if (!repro && cls != "hang") { // depends on the runs before it in that worker
			u64 n = s.index / (u64)nw;
			for (u64 k = 1; !repro; k = k * 4) {
				if (k > n) k = n;
				pre.base = base; pre.step = (u64)nw; pre.count = k; pre.start = s.index - k * (u64)nw;
				a = run_forked(*w, p, pre, twice, 120);
				repro = a.bad;
				if (k >= n || k > 100000) break;
			}
			if (repro) cls = a.cls;
			while (repro && pre.count > 1) { // shortest suffix
				Prelude q = pre;
				q.count = pre.count / 2; q.start = s.index - q.count * (u64)nw;
				Outcome b = run_forked(*w, p, q, twice, 120);
				if (b.bad && b.cls == cls) pre = q; else break;
			}
		}
		if (!repro) {
			fprintf(stderr, "gsim: run %llu failed once (%s) and does not reproduce; not reported\n", (unsigned long long)s.index, s.cls);
			return 3;
		}
		Minimiser m{*w, pre, cls, twice, now_s() + (pre.count ? 15 : 40)};
		Plan q = cls == "hang" ? p : m.run(p);
		Outcome o1 = run_forked(*w, q, pre, twice, HANG_S), o2 = run_forked(*w, q, pre, twice, HANG_S);
		if (!(o1.bad && o2.bad && o1.cls == o2.cls && o1.cls == cls && o1.hash == o2.hash)) { q = p; o1 = run_forked(*w, q, pre, twice, HANG_S); }
		if (o1.msg.empty()) o1.msg = s.msg;
		replay_path = rdir + "/" + prop + "-" + std::to_string(base) + "-" + std::to_string(s.index) + ".replay";
		write_replay(replay_path, q, o1, pre, base, s.index);
		vo = o1;
		// fresh process
		pid_t pid = fork();
		if (!pid) {
			int nul = open("/dev/null", O_WRONLY);
			dup2(nul, 1); dup2(nul, 2);
			execl("/proc/self/exe", self.c_str(), "replay", replay_path.c_str(), "--known", arg(argc, argv, "--known", "").c_str(), (char *)0);
			_exit(99);
		}
		int stt;
		waitpid(pid, &stt, 0);
		if (!WIFEXITED(stt) || WEXITSTATUS(stt) != 1) {
			fprintf(stderr, "gsim: replay file %s does not reproduce the violation\n", replay_path.c_str());
			return 3;
		}
		printf("minimised in %zu executions (%zu accepted) to %zu operations: %s: %s\n", m.tries, m.kept, q.ops.size(), o1.cls.c_str(), o1.msg.c_str());
		printf("VIOLATION property=%s replay=%s\n", prop.c_str(), replay_path.c_str());
		rc = 1;
	}
	for (auto &k : known) if (g_listed.count(k)) printf("KNOWN %s\n", k.c_str());
	// raw statistics for the evidence file
	FILE *f = fopen(out.c_str(), "w");
	if (!f) { perror(out.c_str()); return 3; }
	fprintf(f, "{\"prop\":\"%s\",\"seed\":%llu,\"workers\":%d,\"wall_s\":%.3f,\"violations\":%d,", prop.c_str(), (unsigned long long)base, nw, wall, rc);
	if (rc) fprintf(f, "\"violation\":{\"class\":\"%s\",\"message\":\"%s\",\"replay\":\"%s\"},", jesc(vo.cls).c_str(), jesc(vo.msg).c_str(), jesc(replay_path).c_str());
	fprintf(f, "\"counters\":{");
	for (int k = 0; k < NCTR; k++) fprintf(f, "%s\"%s\":%llu", k ? "," : "", ctr_names[k], (unsigned long long)tot.c[k]);
	u64 e = 0;
	for (int i = 0; i < 1 << 16; i++) e += g_edges[i];
	fprintf(f, "},\"distinct_states\":%llu,\"codepoints_seen\":%llu,\"edges_hit\":%llu,\"edges_total\":%u,\"replayed_twice\":%llu,\"samples\":[",
	        (unsigned long long)popcount_map(g_distinct->bit, sizeof g_distinct->bit), (unsigned long long)popcount_map(g_cpseen, 0x110000 / 8), (unsigned long long)e, g_nguards, (unsigned long long)det);
	for (u64 k = 0; k < 3; k++) {
		Plan p = make_plan(*w, base, k * 2 + 1);
		std::string s = p.str();
		if (s.size() > 700) s = s.substr(0, 700) + "...";
		Outcome o = run_forked(*w, p, Prelude(), 0, HANG_S);
		char h[32];
		snprintf(h, sizeof h, "%016llx", (unsigned long long)o.hash);
		fprintf(f, "%s{\"run\":%llu,\"plan\":\"%s\",\"event_log_hash\":\"%s\",\"verdict\":\"%s\"}", k ? "," : "", (unsigned long long)(k * 2 + 1), jesc(s).c_str(), h, o.bad ? "violates" : "holds");
	}
	fprintf(f, "]}\n");
	fclose(f);
	printf("gsim: %s: %llu runs, %llu library calls, %llu checks in %.1f s\n", prop.c_str(), (unsigned long long)tot.c[S_RUNS], (unsigned long long)tot.c[S_CALLS], (unsigned long long)tot.c[S_CHECKS], wall);
	return rc;
}

static int do_replay(int argc, char **argv)
{
	Plan p;
	std::string cls, txt = slurp(argv[2]);
	if (!Plan::parse(txt, p, &cls)) { fprintf(stderr, "cannot parse %s\n", argv[2]); return 3; }
	const World *w = find_world(p.prop);
	if (!w) return 3;
	Prelude pre;
	size_t at = txt.find("\nprelude ");
	if (at != std::string::npos) {
		unsigned long long a, b, s, n;
		if (sscanf(txt.c_str() + at, "\nprelude %llu %llu %llu %llu", &a, &b, &s, &n) == 4) { pre.base = a; pre.start = b; pre.step = s; pre.count = n; }
	}
	Outcome o = run_forked(*w, p, pre, cls == "nondeterminism", pre.count ? 120 : HANG_S);
	for (int i = 3; i < argc; i++)
		if (!strcmp(argv[i], "--trace")) { fflush(stdout); if (!fork()) { run_plan(*w, p, nullptr, true); fflush(stdout); _exit(0); } int s; wait(&s); }
	if (!o.bad) { printf("replay: no violation (event log %016llx)\n", (unsigned long long)o.hash); return 0; }
	printf("replay: %s: %s (event log %016llx)\n", o.cls.c_str(), o.msg.c_str(), (unsigned long long)o.hash);
	if (!cls.empty() && o.cls != cls) { printf("replay: expected class %s\n", cls.c_str()); return 2; }
	printf("VIOLATION property=%s replay=%s\n", p.prop.c_str(), argv[2]);
	return 1;
}

// event-log hashes of a range of runs, for comparing two processes
static int do_hashes(int argc, char **argv)
{
	const World *w = find_world(argv[2]);
	if (!w) return 3;
	u64 base = strtoull(arg(argc, argv, "--seed", "1").c_str(), 0, 10), n = strtoull(arg(argc, argv, "--runs", "1000").c_str(), 0, 10);
	for (u64 i = 0; i < n; i++) {
		Plan p = make_plan(*w, base, i);
		Outcome o = run_plan(*w, p, nullptr, false);
		printf("%llu %016llx %d\n", (unsigned long long)i, (unsigned long long)o.hash, o.bad);
	}
	return 0;
}

int main(int argc, char **argv)
{
	if (!getenv("GSIM_NOASLR") && personality(0xFFFFFFFF) != -1 && !(personality(0xFFFFFFFF) & ADDR_NO_RANDOMIZE)) {
		setenv("GSIM_NOASLR", "1", 1);
		if (personality((unsigned long)personality(0xFFFFFFFF) | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
	}
	struct rlimit rl = {0, 0};
	setrlimit(RLIMIT_CORE, &rl);
	if (argc < 3) { fprintf(stderr, "usage: gsim check PROP | replay FILE | hashes PROP | show PROP INDEX\n"); return 3; }
	{
		std::istringstream is(arg(argc, argv, "--known", ""));
		std::string k;
		while (std::getline(is, k, ',')) if (!k.empty()) g_listed.insert(k);
	}
	textgen_init();
	arena_reset();
	std::string cmd = argv[1];
	if (cmd == "check") return do_check(argc, argv);
	if (cmd == "replay") return do_replay(argc, argv);
	if (cmd == "hashes") return do_hashes(argc, argv);
	if (cmd == "show" && argc > 3) { printf("%s", make_plan(*find_world(argv[2]), strtoull(arg(argc, argv, "--seed", "1").c_str(), 0, 10), strtoull(argv[3], 0, 10)).str().c_str()); return 0; }
	return 3;
}
