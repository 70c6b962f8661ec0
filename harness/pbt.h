// A small property-based testing engine.
//
// Every random decision of a case is drawn through Gen, which records it in shared memory. A case is a pure function of
// that sequence of choices, so any outcome - a failed assertion, an assert(), a sanitizer report, a crash, a hang - can be
// replayed from the recorded choices and shrunk by editing them. Cases run in forked workers; the master survives anything
// the code under test does.
#ifndef PBT_H
#define PBT_H
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <functional>
#include <QtCore/QByteArray>
#include <QtCore/QString>
#include <QtCore/QVector>

namespace pbt {

struct Shared; // Shared-memory region of a worker.

class Gen {
public:
	explicit Gen(Shared* s, uint64_t seed, const std::vector<uint32_t>* replay = 0);

	// Uniform in [lo, hi]. Shrinks toward lo.
	uint32_t u(uint32_t lo, uint32_t hi);
	// True num times out of den. Shrinks toward false.
	bool chance(uint32_t num, uint32_t den);
	// A size in [0, max], small sizes much more likely. Shrinks toward 0.
	uint32_t size(uint32_t max);
	// Index picked with the given weights. Shrinks toward the first.
	uint32_t weighted(std::initializer_list<uint32_t> weights);
	template <typename T> const T& pick(const std::vector<T>& v) { return v[u(0, (uint32_t)v.size() - 1)]; }
	QByteArray pickB(std::initializer_list<const char*> v) { return QByteArray(*(v.begin() + u(0, (uint32_t)v.size() - 1))); }

	// n characters drawn from alphabet, one choice per character.
	QByteArray chars(uint32_t n, const QByteArray& alphabet);
	// n arbitrary bytes, one choice per byte for short strings; long ones are expanded from a single seed choice.
	QByteArray bytes(uint32_t n);
	// n bytes expanded from one choice.
	QByteArray bulk(uint32_t n);
	// Cut data into pieces. Modes: whole, byte by byte, a few cuts, random pieces.
	QVector<QByteArray> cut(const QByteArray& data, int maxPieces = 64);

	uint32_t drawn() const { return _pos; }
	uint64_t hash() const { return _hash; }
private:
	uint64_t next();
	Shared* _s;
	uint64_t _state;
	uint64_t _hash;
	uint32_t _pos;
	const std::vector<uint32_t>* _replay;
};

class Ctx {
public:
	explicit Ctx(Shared* s) : _s(s), _failed(false), _nontrivial(false) {}
	// Records the first failure of the case. key names the kind of failure (used by the known-findings list).
	void fail(const QByteArray& key, const QByteArray& message);
	bool failed() const { return _failed; }
	// Checks; return the condition.
	bool check(bool cond, const QByteArray& key, const QByteArray& message) { if (!cond) fail(key, message); return cond; }
	bool eq(const QByteArray& actual, const QByteArray& expected, const QByteArray& what);
	bool eqn(long long actual, long long expected, const QByteArray& what);
	// Counts a class of cases.
	void label(const char* name);
	// Marks the case as non-trivial by the check's rule.
	void nontrivial() { _nontrivial = true; }
	bool isNontrivial() const { return _nontrivial; }
	// Appends to the description of the case shown in samples and replay files.
	void desc(const QByteArray& text);
private:
	Shared* _s;
	bool _failed, _nontrivial;
};

struct Check {
	const char* id;             // Property id.
	const char* rule;           // How cases are made and what makes one non-trivial.
	unsigned quickCases;
	unsigned thoroughCases;
	std::function<void(Gen&, Ctx&)> run;
	unsigned hangSeconds;       // A case running longer than this is reported as a hang.
	unsigned workers;
	std::vector<const char*> assumptions;
	std::vector<const char*> required; // Labels that must have been seen (guards against a vacuous generator).
};

// Printable form of bytes, shortened.
QByteArray show(const QByteArray& b, int max = 300);

int main(int argc, char** argv, const std::vector<Check>& checks);

}
#endif
