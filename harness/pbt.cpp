#include "pbt.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <unistd.h>
#include <sys/syscall.h>
#include <signal.h>
#include <fcntl.h>
#include <errno.h>
#include <time.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <algorithm>
#include <map>
#include <set>
#include <fstream>
#include <sstream>
#include <QtCore/QCoreApplication>
#include <QtCore/QEvent>

extern "C" const char* __asan_default_options()
{
	return "detect_leaks=0:exitcode=99:allocator_may_return_null=1:handle_abort=0:symbolize=1:hard_rss_limit_mb=5000:detect_odr_violation=0:malloc_context_size=12";
}

namespace pbt {

enum { MaxChoices = 1 << 19, MaxLabels = 160, LabelLen = 56, MsgLen = 1 << 14, DescLen = 1 << 15, MaxSamples = 3 };

struct Label { char name[LabelLen]; uint64_t count; };

struct Shared {
	volatile uint64_t caseIndex;
	volatile uint64_t caseStartMs; // 0 between cases
	volatile uint64_t casesDone;
	volatile uint32_t stop;
	volatile uint32_t nChoices;
	volatile uint32_t verdict;     // of the last finished case: 0 ok, 1 failed
	char key[256];
	char message[MsgLen];
	uint32_t descLen;
	char desc[DescLen];
	uint32_t nLabels;
	Label labels[MaxLabels];
	uint32_t nSamples;
	char samples[MaxSamples][4096];
	uint32_t choices[MaxChoices];
};

static uint64_t nowMs() { struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); /* Not the one a check may have replaced. */ return uint64_t(t.tv_sec) * 1000 + t.tv_nsec / 1000000; }
static uint64_t mix(uint64_t x) { x += 0x9E3779B97F4A7C15ull; x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull; x = (x ^ (x >> 27)) * 0x94D049BB133111EBull; return x ^ (x >> 31); }

//
// Gen
//

Gen::Gen(Shared* s, uint64_t seed, const std::vector<uint32_t>* replay)
	: _s(s), _state(seed), _hash(1469598103934665603ull), _pos(0), _replay(replay) { s->nChoices = 0; }

uint64_t Gen::next() { _state += 0x9E3779B97F4A7C15ull; return mix(_state); }

uint32_t Gen::u(uint32_t lo, uint32_t hi)
{
	if (hi < lo) hi = lo;
	uint32_t range = hi - lo, v;
	if (_replay)
		v = _pos < _replay->size() ? std::min((*_replay)[_pos], range) : 0;
	else
		v = range == 0xffffffffu ? uint32_t(next()) : uint32_t(next() % (uint64_t(range) + 1));
	if (_pos < MaxChoices) { _s->choices[_pos] = v; _s->nChoices = _pos + 1; }
	++_pos;
	_hash = mix(_hash ^ (uint64_t(v) + 0x51ed27));
	return lo + v;
}

bool Gen::chance(uint32_t num, uint32_t den)
{
	// The high values mean true, so that choices shrink toward false.
	return u(0, den - 1) >= den - num;
}

uint32_t Gen::size(uint32_t max)
{
	switch (u(0, 5))
	{
	case 0: case 1: return u(0, std::min<uint32_t>(max, 4));
	case 2: case 3: return u(0, std::min<uint32_t>(max, 24));
	case 4: return u(0, std::min<uint32_t>(max, 200));
	default: return u(0, max);
	}
}

uint32_t Gen::weighted(std::initializer_list<uint32_t> weights)
{
	uint32_t total = 0; for (uint32_t w : weights) total += w;
	uint32_t v = u(0, total - 1), i = 0;
	for (uint32_t w : weights) { if (v < w) return i; v -= w; ++i; }
	return 0;
}

QByteArray Gen::chars(uint32_t n, const QByteArray& alphabet)
{
	QByteArray r; r.reserve(n);
	if (n > 300)
	{
		uint64_t st = u(0, 0xffffffffu);
		for (uint32_t i = 0; i < n; ++i) { st = mix(st + i); r.append(alphabet.at(int(st % uint64_t(alphabet.size())))); }
	}
	else
		for (uint32_t i = 0; i < n; ++i) r.append(alphabet.at(u(0, alphabet.size() - 1)));
	return r;
}

QByteArray Gen::bytes(uint32_t n)
{
	if (n > 300) return bulk(n);
	QByteArray r; r.reserve(n);
	for (uint32_t i = 0; i < n; ++i) r.append(char(u(0, 255)));
	return r;
}

QByteArray Gen::bulk(uint32_t n)
{
	QByteArray r(int(n), Qt::Uninitialized);
	uint64_t st = u(0, 0xffffffffu);
	char* d = r.data();
	for (uint32_t i = 0; i < n; i += 8)
	{
		st = mix(st + i);
		for (uint32_t k = 0; k < 8 && i + k < n; ++k) d[i + k] = char(st >> (8 * k));
	}
	return r;
}

QVector<QByteArray> Gen::cut(const QByteArray& data, int maxPieces)
{
	QVector<QByteArray> r;
	int n = data.size();
	if (n == 0) return r;
	switch (weighted({3, 2, 4, 3}))
	{
	case 0: // Whole.
		r << data; break;
	case 1: // Byte by byte at the start, the rest in one piece if it is long.
	{
		int m = std::min(n, 700);
		for (int i = 0; i < m; ++i) r << data.mid(i, 1);
		if (m < n) r << data.mid(m);
		break;
	}
	case 2: // A few cuts.
	{
		int cuts = int(u(1, 5)); std::vector<int> at; for (int i = 0; i < cuts; ++i) at.push_back(int(u(0, uint32_t(n))));
		std::sort(at.begin(), at.end()); int prev = 0;
		for (int a : at) if (a > prev) { r << data.mid(prev, a - prev); prev = a; }
		if (prev < n) r << data.mid(prev);
		break;
	}
	default: // Pieces of random sizes.
	{
		int pos = 0;
		while (pos < n)
		{
			int len = r.size() + 1 >= maxPieces ? n - pos : int(1 + size(uint32_t(std::max(1, n / 3))));
			len = std::min(len, n - pos);
			r << data.mid(pos, len); pos += len;
		}
	}
	}
	return r;
}

//
// Ctx
//

static std::set<std::string> g_known; // keys of known findings of the current property

void Ctx::fail(const QByteArray& key, const QByteArray& message)
{
	if (_failed) return;
	if (g_known.count(key.constData())) { label((QByteArray("known-finding ") + key).constData()); return; }
	_failed = true;
	strncpy(_s->key, key.constData(), sizeof(_s->key) - 1); _s->key[sizeof(_s->key) - 1] = 0;
	size_t n = std::min<size_t>(message.size(), MsgLen - 1);
	memcpy(_s->message, message.constData(), n); _s->message[n] = 0;
}

bool Ctx::eq(const QByteArray& actual, const QByteArray& expected, const QByteArray& what)
{
	if (actual == expected) return true;
	int i = 0; while (i < actual.size() && i < expected.size() && actual.at(i) == expected.at(i)) ++i;
	fail(what, what + ": got (" + QByteArray::number(actual.size()) + " bytes) \"" + show(actual) + "\", expected (" + QByteArray::number(expected.size())
		+ " bytes) \"" + show(expected) + "\"; first difference at byte " + QByteArray::number(i) + ": got \"" + show(actual.mid(i, 60)) + "\", expected \"" + show(expected.mid(i, 60)) + "\"");
	return false;
}

bool Ctx::eqn(long long actual, long long expected, const QByteArray& what)
{
	if (actual == expected) return true;
	fail(what, what + ": got " + QByteArray::number(actual) + ", expected " + QByteArray::number(expected));
	return false;
}

void Ctx::label(const char* name)
{
	for (uint32_t i = 0; i < _s->nLabels; ++i)
		if (!strncmp(_s->labels[i].name, name, LabelLen - 1)) { ++_s->labels[i].count; return; }
	if (_s->nLabels < MaxLabels)
	{
		strncpy(_s->labels[_s->nLabels].name, name, LabelLen - 1);
		_s->labels[_s->nLabels].count = 1; ++_s->nLabels;
	}
}

void Ctx::desc(const QByteArray& text)
{
	uint32_t n = std::min<uint32_t>(text.size(), DescLen - 1 - _s->descLen);
	memcpy(_s->desc + _s->descLen, text.constData(), n); _s->descLen += n; _s->desc[_s->descLen] = 0;
}

QByteArray show(const QByteArray& b, int max)
{
	QByteArray r;
	int n = std::min(b.size(), max);
	for (int i = 0; i < n; ++i)
	{
		unsigned char c = b.at(i);
		if (c == '\r') r += "\\r"; else if (c == '\n') r += "\\n"; else if (c == '\\') r += "\\\\"; else if (c == '"') r += "\\\"";
		else if (c >= 32 && c < 127) r += char(c);
		else { char t[8]; snprintf(t, sizeof t, "\\x%02x", c); r += t; }
	}
	if (n < b.size()) r += "...(" + QByteArray::number(b.size()) + " bytes)";
	return r;
}

//
// Master
//

static void quiet(QtMsgType, const QMessageLogContext&, const QString&) {}

static std::string jsonEscape(const std::string& s)
{
	std::string r;
	for (unsigned char c : s)
	{
		if (c == '"') r += "\\\""; else if (c == '\\') r += "\\\\"; else if (c == '\n') r += "\\n"; else if (c == '\r') r += "\\r"; else if (c == '\t') r += "\\t";
		else if (c < 32 || c >= 127) { char t[8]; snprintf(t, sizeof t, "\\u%04x", c); r += t; }
		else r += char(c);
	}
	return r;
}

static Shared* newShared()
{
	void* p = mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (p == MAP_FAILED) { perror("mmap"); exit(3); }
	return static_cast<Shared*>(p);
}

static void childInit(int errFd)
{
	prctl(PR_SET_PDEATHSIG, SIGKILL);
	struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
	dup2(errFd, 2);
	int nul = open("/dev/null", O_WRONLY); dup2(nul, 1);
	signal(SIGPIPE, SIG_IGN);
	qInstallMessageHandler(quiet);
}

static void runOne(const Check& c, Shared* s, Gen& g)
{
	s->verdict = 0; s->descLen = 0; s->desc[0] = 0; s->message[0] = 0; s->key[0] = 0;
	Ctx ctx(s);
	c.run(g, ctx);
	QCoreApplication::sendPostedEvents(0, QEvent::DeferredDelete);
	if (ctx.failed()) s->verdict = 1;
}

struct Result { bool failed; std::string key, message, desc; std::vector<uint32_t> choices; };

static std::string readFd(int fd)
{
	std::string r; char buf[65536]; lseek(fd, 0, SEEK_SET); ssize_t n;
	while ((n = read(fd, buf, sizeof buf)) > 0 && r.size() < (1u << 20)) r.append(buf, n);
	return r;
}

static std::string crashKey(const std::string& err, int status)
{
	std::string::size_type p = err.find("SUMMARY: ");
	if (p != std::string::npos) return err.substr(p, err.find('\n', p) - p);
	p = err.find("Assertion");
	if (p != std::string::npos) { std::string::size_type b = err.rfind('\n', p); b = b == std::string::npos ? 0 : b + 1; return err.substr(b, err.find('\n', p) - b); }
	std::ostringstream o;
	if (WIFSIGNALED(status)) o << "killed by signal " << WTERMSIG(status); else o << "exit status " << WEXITSTATUS(status);
	return o.str();
}

static std::string crashReport(const std::string& err, int status)
{
	std::string r = crashKey(err, status);
	std::string::size_type p = err.find("ERROR: AddressSanitizer");
	if (p != std::string::npos) r += "\n" + err.substr(p, 3500);
	return r;
}

static int tmpErr() { char t[] = "/tmp/pbt-err-XXXXXX"; int fd = mkostemp(t, O_CLOEXEC); if (fd >= 0) unlink(t); return fd; }

static unsigned g_hang;

// Runs one case from recorded choices in a child of its own.
static Result replay(const Check& c, Shared* s, const std::vector<uint32_t>& choices, unsigned hangSeconds)
{
	int err = tmpErr();
	s->verdict = 2; s->nChoices = 0; s->descLen = 0; s->desc[0] = 0; s->message[0] = 0; s->key[0] = 0;
	pid_t pid = fork();
	if (pid == 0)
	{
		childInit(err);
		int argc = 1; char name[] = "pbt"; char* argv[] = {name, 0};
		QCoreApplication app(argc, argv);
		Gen g(s, 0, &choices);
		runOne(c, s, g);
		_exit(s->verdict == 1 ? 77 : 0);
	}
	uint64_t start = nowMs(); int status = 0; bool hung = false;
	for (int n = 0;; ++n)
	{
		pid_t r = waitpid(pid, &status, WNOHANG);
		if (r == pid) break;
		if (nowMs() - start > hangSeconds * 1000ull) { kill(pid, SIGKILL); waitpid(pid, &status, 0); hung = true; break; }
		usleep(n < 50 ? 500 : 3000);
	}
	Result res; res.failed = true;
	res.choices.assign(s->choices, s->choices + std::min<uint32_t>(uint32_t(s->nChoices), uint32_t(MaxChoices)));
	res.desc = s->desc;
	if (hung) { res.key = "hang"; res.message = "the case did not end within the time limit"; }
	else if (WIFEXITED(status) && WEXITSTATUS(status) == 0) res.failed = false;
	else if (WIFEXITED(status) && WEXITSTATUS(status) == 77) { res.key = s->key; res.message = s->message; }
	else { std::string e = readFd(err); res.key = "crash"; res.message = crashReport(e, status); if (g_known.count(crashKey(e, status))) res.failed = false; }
	close(err);
	return res;
}

static Result shrink(const Check& c, Shared* s, Result best, unsigned maxAttempts, uint64_t budgetMs)
{
	uint64_t end = nowMs() + budgetMs; unsigned attempts = 0;
	unsigned hang = best.key == "hang" ? std::min(g_hang, 10u) : g_hang;
	std::string kind = best.key;
	auto attempt = [&](const std::vector<uint32_t>& cand) -> bool {
		if (attempts >= maxAttempts || nowMs() > end) return false;
		++attempts;
		Result r = replay(c, s, cand, hang);
		// Accept any failure of the same kind (a crash stays a crash), so that shrinking does not drift to another defect.
		if (!r.failed || (kind == "crash") != (r.key == "crash") || (kind == "hang") != (r.key == "hang")) return false;
		if (r.choices.size() > best.choices.size()) return false;
		if (r.choices.size() == best.choices.size() && !(r.choices < best.choices)) return false;
		best = r; return true;
	};
	bool progress = true;
	while (progress && attempts < maxAttempts && nowMs() < end)
	{
		progress = false;
		for (size_t chunk = std::max<size_t>(1, best.choices.size() / 2); chunk >= 1; chunk /= 2)
		{
			for (size_t i = best.choices.size(); i > 0 && nowMs() < end;)
			{
				i = i > chunk ? i - chunk : 0;
				if (i + chunk > best.choices.size()) continue;
				std::vector<uint32_t> cand = best.choices; cand.erase(cand.begin() + i, cand.begin() + i + chunk);
				if (attempt(cand)) { progress = true; if (i > best.choices.size()) i = best.choices.size(); }
			}
			if (chunk == 1) break;
		}
		for (size_t chunk = 8; chunk >= 1; chunk /= 2)
		{
			for (size_t i = 0; i < best.choices.size() && nowMs() < end; i += chunk)
			{
				std::vector<uint32_t> cand = best.choices; bool any = false;
				for (size_t k = i; k < i + chunk && k < cand.size(); ++k) { if (cand[k]) any = true; cand[k] = 0; }
				if (any && attempt(cand)) progress = true;
			}
		}
		for (size_t i = 0; i < best.choices.size() && nowMs() < end; ++i)
		{
			uint32_t lo = 0;
			for (int k = 0; k < 12 && i < best.choices.size() && best.choices[i] > lo; ++k)
			{
				std::vector<uint32_t> cand = best.choices; uint32_t v = best.choices[i]; cand[i] = lo + (v - lo) / 2;
				if (cand[i] == v) break;
				if (attempt(cand)) progress = true; else lo = cand[i] + 1;
			}
		}
	}
	return best;
}

static std::string g_root;

static std::string writeReplay(const Check& c, const Result& r, uint64_t seed, uint64_t index, const std::string& tier)
{
	std::string dir = g_root + "/replays"; mkdir(dir.c_str(), 0777);
	std::ostringstream name; name << dir << "/" << c.id << "-seed" << seed << "-case" << index << ".json";
	std::ofstream o(name.str());
	o << "{\"property\": \"" << c.id << "\", \"seed\": " << seed << ", \"tier\": \"" << tier << "\", \"case\": " << index << ",\n \"key\": \"" << jsonEscape(r.key)
	  << "\",\n \"message\": \"" << jsonEscape(r.message) << "\",\n \"description\": \"" << jsonEscape(r.desc) << "\",\n \"choices\": [";
	for (size_t i = 0; i < r.choices.size(); ++i) o << (i ? "," : "") << r.choices[i];
	o << "]}\n";
	return name.str();
}

static std::vector<uint32_t> readReplay(const std::string& path)
{
	std::ifstream f(path); std::stringstream ss; ss << f.rdbuf(); std::string t = ss.str();
	std::vector<uint32_t> r; std::string::size_type p = t.rfind("\"choices\": [");
	if (p == std::string::npos) { fprintf(stderr, "no choices in %s\n", path.c_str()); exit(3); }
	p += 12;
	const char* q = t.c_str() + p;
	while (*q && *q != ']') { char* e; unsigned long v = strtoul(q, &e, 10); if (e == q) break; r.push_back(uint32_t(v)); q = e; while (*q == ',' || *q == ' ') ++q; }
	return r;
}

int main(int argc, char** argv, const std::vector<Check>& checks)
{
	setvbuf(stdout, 0, _IOLBF, 0);
	std::string id, tier = getenv("VERIF_TIER") ? getenv("VERIF_TIER") : "quick", replayPath; uint64_t seed = getenv("VERIF_SEED") ? strtoull(getenv("VERIF_SEED"), 0, 10) : 1;
	g_root = getenv("VERIF_ROOT") ? getenv("VERIF_ROOT") : "/verif";
	long casesOverride = -1, only = -1; bool verbose = false;
	for (int i = 1; i < argc; ++i)
	{
		std::string a = argv[i];
		if (a == "--tier" && i + 1 < argc) tier = argv[++i];
		else if (a == "--seed" && i + 1 < argc) seed = strtoull(argv[++i], 0, 10);
		else if (a == "--cases" && i + 1 < argc) casesOverride = atol(argv[++i]);
		else if (a == "--only" && i + 1 < argc) only = atol(argv[++i]);
		else if (a == "--replay" && i + 1 < argc) replayPath = argv[++i];
		else if (a == "-v") verbose = true;
		else id = a;
	}
	const Check* cp = 0; for (const Check& c : checks) if (id == c.id) cp = &c;
	if (!cp) { fprintf(stderr, "no such check: %s\n", id.c_str()); return 3; }
	const Check& c = *cp; g_hang = c.hangSeconds;
	std::vector<std::string> knownLines;
	{
		// Known findings: "finding: property=C01 key=<key> -- <what fails>"
		std::ifstream f(g_root + "/KNOWN_FINDINGS.txt"); std::string line;
		while (std::getline(f, line))
		{
			std::string pre = std::string("finding: property=") + c.id + " key=";
			if (line.compare(0, pre.size(), pre)) continue;
			std::string rest = line.substr(pre.size()); std::string::size_type p = rest.find(" -- ");
			g_known.insert(rest.substr(0, p)); knownLines.push_back(p == std::string::npos ? rest : rest.substr(p + 4));
		}
	}
	Shared* rs = newShared();
	if (!replayPath.empty())
	{
		Result r = replay(c, rs, readReplay(replayPath), g_hang);
		printf("%s\n%s\n%s\n", r.failed ? "FAILED" : "passed", r.message.c_str(), r.desc.c_str());
		return r.failed ? 1 : 0;
	}
	uint64_t start = nowMs();
	uint64_t total = casesOverride >= 0 ? casesOverride : tier == "thorough" ? c.thoroughCases : c.quickCases;
	uint64_t wallCap = tier == "thorough" ? 6 * 3600 * 1000ull : 420 * 1000ull; // Stop early, not a verdict.
	unsigned W = std::max(1u, c.workers);
	if (only >= 0) W = 1;
	std::vector<Shared*> sh(W); std::vector<pid_t> pid(W, 0); std::vector<int> err(W, -1); std::vector<uint64_t> nextCase(W); 
	uint64_t* hashes = static_cast<uint64_t*>(mmap(0, (total + 1) * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
	uint64_t evaluations = 0, unreproduced = 0; bool violation = false, cutShort = false;
	for (unsigned w = 0; w < W; ++w) { sh[w] = newShared(); nextCase[w] = w; }
	uint64_t checkSalt = 0; for (const char* p = c.id; *p; ++p) checkSalt = mix(checkSalt ^ *p);
	auto spawn = [&](unsigned w) {
		if (err[w] >= 0) close(err[w]);
		err[w] = tmpErr();
		uint64_t first = nextCase[w];
		sh[w]->caseStartMs = 0;
		pid[w] = fork();
		if (pid[w] == 0)
		{
			childInit(err[w]);
			int ac = 1; char name[] = "pbt"; char* av[] = {name, 0};
			QCoreApplication app(ac, av);
			for (uint64_t i = first; i < total; i += W)
			{
				if (sh[w]->stop) break;
				if (only >= 0 && i != uint64_t(only)) continue;
				sh[w]->caseIndex = i; sh[w]->caseStartMs = nowMs();
				Gen g(sh[w], mix(mix(seed ^ 0xabcdef) ^ checkSalt ^ mix(i)));
				Shared* s = sh[w];
				s->verdict = 0; s->descLen = 0; s->desc[0] = 0; s->message[0] = 0; s->key[0] = 0;
				Ctx ctx(s);
				c.run(g, ctx);
				QCoreApplication::sendPostedEvents(0, QEvent::DeferredDelete);
				sh[w]->caseStartMs = 0; ++sh[w]->casesDone;
				if (ctx.isNontrivial())
				{
					hashes[i] = g.hash() | 1;
					if (s->nSamples < MaxSamples && s->descLen > 0 && (i / W) % 7 == s->nSamples * 2u)
					{ strncpy(s->samples[s->nSamples], s->desc, 4095); ++s->nSamples; }
				}
				if (ctx.failed()) { s->verdict = 1; _exit(77); }
			}
			_exit(0);
		}
	};
	unsigned running = 0;
	for (unsigned w = 0; w < W; ++w) { if (nextCase[w] < total) { spawn(w); ++running; } }
	uint64_t lastPrint = nowMs();
	while (running > 0)
	{
		if (nowMs() - start > wallCap && !cutShort) { cutShort = true; for (Shared* s : sh) s->stop = 1; }
		for (unsigned w = 0; w < W; ++w)
		{
			if (!pid[w]) continue;
			int status; pid_t r = waitpid(pid[w], &status, WNOHANG); bool hung = false;
			if (r == 0)
			{
				uint64_t cs = sh[w]->caseStartMs;
				if (cs && nowMs() > cs + g_hang * 1000ull) { kill(pid[w], SIGKILL); waitpid(pid[w], &status, 0); hung = true; }
				else continue;
			}
			pid[w] = 0; --running;
			if (!hung && WIFEXITED(status) && WEXITSTATUS(status) == 0) continue;
			// A case failed.
			uint64_t index = sh[w]->caseIndex;
			Result f; f.failed = true;
			f.choices.assign(sh[w]->choices, sh[w]->choices + std::min<uint32_t>(uint32_t(sh[w]->nChoices), uint32_t(MaxChoices)));
			f.desc = std::string(sh[w]->desc);
			bool known = false;
			if (hung) { f.key = "hang"; f.message = "the case did not end within the time limit"; }
			else if (WIFEXITED(status) && WEXITSTATUS(status) == 77) { f.key = sh[w]->key; f.message = sh[w]->message; }
			else { std::string e = readFd(err[w]); f.key = "crash"; f.message = crashReport(e, status); known = g_known.count(crashKey(e, status)); }
			fprintf(stderr, "[%s] case %llu failed: %s: %s\n", c.id, (unsigned long long)index, f.key.c_str(), f.message.substr(0, 1500).c_str());
			if (verbose) fprintf(stderr, "  description: %s\n", f.desc.c_str());
			if (!violation && !known)
			{
				// A failure counts only if the same choices fail again, three times.
				int again = 0; Result rr;
				for (int k = 0; k < 3; ++k) { Result r2 = replay(c, rs, f.choices, g_hang); if (r2.failed) { ++again; rr = r2; } else break; }
				if (again == 3)
				{
					violation = true;
					for (Shared* s : sh) s->stop = 1;
					if (only < 0 || verbose == false)
						rr = shrink(c, rs, rr, 3000, tier == "thorough" ? 180000 : 45000);
					std::string path = writeReplay(c, rr, seed, index, tier);
					fprintf(stderr, "[%s] shrunk to %zu choices: %s: %s\n%s\n", c.id, rr.choices.size(), rr.key.c_str(), rr.message.substr(0, 3000).c_str(), rr.desc.substr(0, 3000).c_str());
					printf("VIOLATION property=%s replay=%s\n", c.id, path.c_str());
				}
				else { ++unreproduced; fprintf(stderr, "[%s] case %llu did not fail again on replay; not counted\n", c.id, (unsigned long long)index); }
			}
			if (!violation && !cutShort && unreproduced < 20)
			{
				nextCase[w] = index + W;
				if (nextCase[w] < total) { spawn(w); ++running; }
			}
		}
		if (verbose && nowMs() - lastPrint > 5000)
		{
			lastPrint = nowMs(); uint64_t d = 0; for (Shared* s : sh) d += s->casesDone;
			fprintf(stderr, "[%s] %llu/%llu cases\n", c.id, (unsigned long long)d, (unsigned long long)total);
		}
		usleep(2000);
	}
	std::map<std::string, uint64_t> labels; std::vector<std::string> samples; std::set<uint64_t> distinct;
	for (unsigned w = 0; w < W; ++w)
	{
		evaluations += sh[w]->casesDone;
		for (uint32_t i = 0; i < sh[w]->nLabels; ++i) labels[sh[w]->labels[i].name] += sh[w]->labels[i].count;
		for (uint32_t i = 0; i < sh[w]->nSamples; ++i) if (samples.size() < 6) samples.push_back(sh[w]->samples[i]);
	}
	for (uint64_t i = 0; i < total; ++i) if (hashes[i]) distinct.insert(hashes[i]);
	double wall = (nowMs() - start) / 1000.0;
	std::vector<std::string> missing;
	if (casesOverride < 0 && only < 0 && !violation && !cutShort)
		for (const char* l : c.required) if (!labels.count(l)) missing.push_back(l);
	if (only < 0)
	{
		mkdir((g_root + "/evidence").c_str(), 0777);
		std::ofstream o(g_root + "/evidence/" + c.id + ".json");
		o << "{\"property\": \"" << c.id << "\", \"tier\": \"" << (tier == "thorough" ? "thorough" : "quick") << "\", \"seed\": " << seed << ", \"level\": \"exploration\",\n"
		  << " \"coverage\": {\"evaluations\": " << evaluations << ", \"distinct_nontrivial\": " << distinct.size() << ",\n  \"rule\": \"" << jsonEscape(c.rule) << "\",\n  \"samples\": [";
		for (size_t i = 0; i < samples.size(); ++i) o << (i ? ",\n   " : "\n   ") << "\"" << jsonEscape(samples[i]) << "\"";
		if (samples.empty()) o << "\"(no sample: the run stopped early)\"";
		o << "],\n  \"classes\": {";
		bool firstL = true; for (auto& l : labels) { o << (firstL ? "" : ", ") << "\"" << jsonEscape(l.first) << "\": " << l.second; firstL = false; }
		o << "},\n  \"planned\": " << total << ", \"stopped_early\": " << (cutShort ? "true" : "false") << ", \"failures_not_reproduced\": " << unreproduced << "},\n \"assumptions\": [";
		for (size_t i = 0; i < c.assumptions.size(); ++i) o << (i ? ", " : "") << "\"" << jsonEscape(c.assumptions[i]) << "\"";
		o << "],\n \"wall_s\": " << wall << ", \"violations\": " << (violation ? 1 : 0) << "}\n";
	}
	for (auto& k : knownLines) printf("KNOWN-FINDING: property=%s %s\n", c.id, k.c_str());
	printf("%s: %llu cases, %zu distinct non-trivial, %.1f s, %s%s\n", c.id, (unsigned long long)evaluations, distinct.size(), wall,
		violation ? "VIOLATED" : "held", unreproduced ? " (with unreproduced failures)" : "");
	if (verbose) for (auto& l : labels) printf("  %-50s %llu\n", l.first.c_str(), (unsigned long long)l.second);
	if (violation) return 1;
	if (!missing.empty()) { for (auto& m : missing) fprintf(stderr, "class never generated: %s\n", m.c_str()); }
	return 0;
}

}
