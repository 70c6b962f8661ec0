// C01 request fidelity, C02 refusal of bad requests, C07 percent-decoding and parameters.
#include "support.h"
#include <limits.h>

using namespace Pillow;

namespace {

// Listens to a connection; on each announced request records what a handler can see.
class Probe : public QObject {
	Q_OBJECT
public:
	QVector<Seen> seen; int completed, closed;
	std::function<void(HttpConnection*)> onReady;
	Probe(HttpConnection* c) : completed(0), closed(0)
	{
		connect(c, SIGNAL(requestReady(Pillow::HttpConnection*)), this, SLOT(ready(Pillow::HttpConnection*)));
		connect(c, SIGNAL(requestCompleted(Pillow::HttpConnection*)), this, SLOT(done(Pillow::HttpConnection*)));
		connect(c, SIGNAL(closed(Pillow::HttpConnection*)), this, SLOT(shut(Pillow::HttpConnection*)));
	}
public slots:
	void ready(Pillow::HttpConnection* c) { seen << Seen::of(c); if (onReady) onReady(c); }
	void done(Pillow::HttpConnection*) { ++completed; }
	void shut(Pillow::HttpConnection*) { ++closed; }
};

//
// An independent reader of the request grammar (common.rl): the verdict on a byte stream and, when valid, its parts.
//
struct Verdict { enum V { Valid, Invalid, Incomplete } v; int consumed; Req req; };

bool isHex(unsigned char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
bool isAlnum(unsigned char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
bool isDigit(unsigned char c) { return c >= '0' && c <= '9'; }
bool isCtl(unsigned char c) { return c < 32 || c == 127; }
bool isTokenChar(unsigned char c) { return c < 127 && c > 32 && !strchr("()<>@,;:\\\"/[]?={} \t", c); }
// Any character a URI part may consist of besides escapes; the parts differ only in '?'.
bool isUriChar(unsigned char c) { return !isCtl(c) && c != ' ' && c != '#' && c != '%'; }

Verdict readRequest(const QByteArray& d)
{
	Verdict r; r.v = Verdict::Incomplete; r.consumed = d.size(); Req& q = r.req; int p = 0, n = d.size();
	#define NEED() do { if (p >= n) return r; } while (0)
	#define BAD() do { r.v = Verdict::Invalid; r.consumed = p + 1; return r; } while (0)
	for (;;) { NEED(); unsigned char c = d.at(p); if (c == ' ' && p > 0) break; if (!((c >= 'A' && c <= 'Z') || isDigit(c) || (c && strchr("$-_.", c))) || p >= 20) BAD(); ++p; }
	q.method = d.left(p); ++p;
	int start = p; NEED();
	enum { Star, Scheme, Opaque, Path, Query } where;
	if (d.at(p) == '*') { where = Star; ++p; }
	else if (d.at(p) == '/') { where = Path; ++p; }
	else where = Scheme;
	int pathEnd = -1, queryStart = -1;
	for (;;)
	{
		NEED(); unsigned char c = d.at(p);
		if ((c == ' ' || c == '#') && where != Scheme) break;
		if (where == Star) BAD();
		if (where == Scheme) { if (c == ':') where = Opaque; else if (!(isAlnum(c) || (c && strchr("+-.", c)))) BAD(); ++p; continue; }
		if (c == '%')
		{
			++p; NEED(); if (d.at(p) == 'u') { ++p; NEED(); }
			if (!isHex(d.at(p))) BAD(); ++p; NEED(); if (!isHex(d.at(p))) BAD(); ++p; continue;
		}
		if (!isUriChar(c)) BAD();
		if (c == '?' && where == Path) { pathEnd = p; where = Query; queryStart = p + 1; }
		++p;
	}
	q.uri = d.mid(start, p - start);
	if (where == Path) q.path = q.uri; else if (where == Query) { q.path = d.mid(start, pathEnd - start); q.query = d.mid(queryStart, p - queryStart); }
	if (d.at(p) == '#')
	{
		q.hasFragment = true; ++p; int fs = p;
		for (;;)
		{
			NEED(); unsigned char c = d.at(p); if (c == ' ') break;
			if (c == '%') { ++p; NEED(); if (d.at(p) == 'u') { ++p; NEED(); } if (!isHex(d.at(p))) BAD(); ++p; NEED(); if (!isHex(d.at(p))) BAD(); ++p; continue; }
			if (!isUriChar(c)) BAD(); ++p;
		}
		q.fragment = d.mid(fs, p - fs);
	}
	++p; int vs = p;
	for (const char* t = "HTTP/"; *t; ++t) { NEED(); if (d.at(p) != *t) BAD(); ++p; }
	NEED(); if (!isDigit(d.at(p))) BAD(); while (p < n && isDigit(d.at(p))) ++p;
	NEED(); if (d.at(p) != '.') BAD(); ++p;
	NEED(); if (!isDigit(d.at(p))) BAD(); while (p < n && isDigit(d.at(p))) ++p;
	NEED(); if (d.at(p) != '\r') BAD();
	q.version = d.mid(vs, p - vs); ++p;
	NEED(); if (d.at(p) != '\n') BAD(); ++p;
	for (;;)
	{
		NEED();
		if (d.at(p) == '\r') { ++p; NEED(); if (d.at(p) != '\n') BAD(); ++p; r.v = Verdict::Valid; r.consumed = p; return r; }
		int ns = p;
		for (;;) { NEED(); unsigned char c = d.at(p); if (c == ':' && p > ns) break; if (!isTokenChar(c)) BAD(); ++p; }
		QByteArray name = d.mid(ns, p - ns); ++p;
		NEED(); while (p < n && d.at(p) == ' ') ++p;
		int v = p;
		for (;;) { NEED(); if (d.at(p) == '\r') break; ++p; }
		QByteArray value = d.mid(v, p - v); ++p;
		NEED(); if (d.at(p) != '\n') BAD(); ++p;
		q.headers << Hdr(name, value);
	}
	#undef NEED
	#undef BAD
}

// The body length a head announces. 0: fine, else the status of the refusal; -1: not decided by the property.
int bodyLength(const Req& r, qint64& length)
{
	length = 0; const QByteArray* v = 0;
	for (const Hdr& h : r.headers) if (ieq(h.first, "content-length")) v = &h.second;
	if (!v) return 0;
	if (v->isEmpty()) return 413;
	bool neg = v->startsWith('-'); QByteArray digits = neg ? v->mid(1) : *v;
	bool plain = !digits.isEmpty(); for (int i = 0; i < digits.size(); ++i) if (!isDigit(digits.at(i))) plain = false;
	if (!plain)
	{
		// Leading plus signs, blanks and NULs are for the number reader to decide.
		for (int i = 0; i < v->size(); ++i) { unsigned char c = v->at(i); if (c <= 32 || c == '+' || c >= 127) return -1; }
		return 413;
	}
	while (digits.size() > 1 && digits.startsWith('0')) digits.remove(0, 1);
	if (digits == "0") return 0;
	if (neg) { if (digits.size() > 10 || digits.toLongLong() > 2147483648ll) return -1; return 400; }
	if (digits.size() > 10) return 413;
	length = digits.toLongLong();
	return length > 128 * 1024 * 1024 ? 413 : 0;
}

bool expectsContinue(const Req& r) { return ieq(headerValue(r.headers, "expect"), "100-continue"); }

void fitHead(Gen& g, Ctx& c, Req& r)
{
	while (r.headWire().size() > 32768 && !r.headers.isEmpty())
	{
		int i = r.headers.size() - 1; while (i > 0 && (ieq(r.headers.at(i).first, "content-length") || r.headers.at(i).second.size() < 20)) --i;
		if (ieq(r.headers.at(i).first, "content-length")) break;
		r.headers.remove(i); r.pads.remove(i);
	}
	if (g.chance(1, 25))
	{
		// A head of exactly the limit, or just below.
		int slack = int(g.u(0, 2)), missing = 32768 - slack - r.headWire().size() - 6;
		if (missing > 0) { r.headers << Hdr("Xp", QByteArray(missing, 'p')); r.pads << " "; c.label("head at the size limit"); }
	}
}

const QByteArray kContinue("HTTP/1.1 100 Continue\r\n\r\n");

// Answers the announced request so that the connection is kept, whatever the request asked for.
bool keepsAlive(const Req& r)
{
	QByteArray conn = headerValue(r.headers, "connection");
	return r.version == "HTTP/1.1" ? !ieq(conn, "close") : ieq(conn, "keep-alive");
}

//
// C01
//
void c01(Gen& g, Ctx& c)
{
	PipeDevice in, out; bool same = g.chance(1, 2); QIODevice* outDev = same ? &in : &out; PipeDevice& o = same ? in : out;
	HttpConnection conn; Probe probe(&conn);
	int warm = int(g.weighted({3, 2, 1})); // Earlier requests on the same buffers.
	bool early = g.chance(1, 5);
	Req r = genRequest(g); 
	if (g.chance(1, 15)) { int n = int(g.u(33, 400)); for (int i = 0; i < n; ++i) { r.headers << Hdr("H" + num(i), "v" + num(i)); r.pads << " "; } c.label("more than 32 headers"); }
	fitHead(g, c, r);
	if (g.chance(1, 60)) { int n = int(g.u(1, 3)) << 20; r.body = g.bulk(n); bool has = false; for (Hdr& h : r.headers) if (ieq(h.first, "content-length")) { h.second = num(n); has = true; } if (!has) { r.headers << Hdr("Content-Length", num(n)); r.pads << " "; } c.label("body of megabytes"); }
	if (r.headWire().size() > 32768) return;
	if (!r.body.isEmpty()) c.label("with body");
	if (r.body.size() > 32768) c.label("body larger than the head buffer");
	if (!r.query.isEmpty()) c.label("with query");
	if (r.hasFragment) c.label("with fragment");
	if (r.path.isEmpty()) c.label("absolute or star uri");
	bool initialized = false;
	if (!early) { conn.initialize(&in, outDev); initialized = true; }
	QByteArray prefixOut;
	for (int i = 0; i < warm && !early; ++i)
	{
		Req w; w.method = "POST"; w.version = "HTTP/1.1"; w.path = genPath(g, true, 300); w.query = genQuery(g, true, 100); w.uri = w.path + "?" + w.query; if (w.query.isEmpty()) w.uri = w.path;
		w.body = g.bytes(g.size(g.chance(1, 6) ? 60000 : 500));
		int nh = int(g.size(40)); for (int k = 0; k < nh; ++k) w.headers << Hdr("W" + num(k), genHeaderValue(g));
		w.headers << Hdr("Content-Length", num(w.body.size()));
		int before = probe.seen.size();
		in.feed(w.wire());
		if (!c.eqn(probe.seen.size(), before + 1, "announcements of a warm-up request")) { c.desc("warm-up " + show(w.wire(), 1000)); return; }
		compareSeen(c, probe.seen.last(), w, "warm-up ");
		conn.requestParams(); conn.requestUriDecoded(); conn.requestPathDecoded();
		conn.writeResponse(200, HttpHeaderCollection(), "ok");
		c.label("after earlier requests");
	}
	if (c.failed()) return;
	int base = probe.seen.size(); prefixOut = o.all();
	QByteArray wire = r.wire();
	QVector<QByteArray> pieces = g.cut(wire);
	c.desc("request " + show(wire, 1500) + "\nin " + num(pieces.size()) + " pieces:"); { int shown = 0; for (const QByteArray& p : pieces) { if (++shown > 20) break; c.desc(" " + num(p.size())); } }
	c.desc(same ? "\none device" : "\ntwo devices"); if (early) c.desc(", first piece available before initialize()");
	if (pieces.size() > 1) { c.label("segmented"); c.nontrivial(); }
	if (!r.body.isEmpty() || r.headers.size() > 3) c.nontrivial();
	int headSize = r.headWire().size(), sent = 0; bool expect = expectsContinue(r) && !r.body.isEmpty();
	if (expect) c.label("100-continue");
	for (int i = 0; i < pieces.size(); ++i)
	{
		if (!initialized)
		{
			in.in += pieces.at(i); sent += pieces.at(i).size();
			conn.initialize(&in, outDev); initialized = true; settle(2); c.label("data before initialize");
		}
		else { in.feed(pieces.at(i)); sent += pieces.at(i).size(); }
		if (g.chance(1, 20)) settle(1);
		int expectSeen = base + (sent == wire.size() ? 1 : 0);
		if (!c.eqn(probe.seen.size(), expectSeen, sent == wire.size() ? "announcements after the last byte" : "announcements before the last byte")) return;
		bool cont = expect && sent >= headSize;
		if (!c.eq(o.all(), prefixOut + (cont ? kContinue : QByteArray()), "bytes sent by the server while receiving")) return;
	}
	compareSeen(c, probe.seen.last(), r, "");
	if (c.failed()) return;
	// The same values must still be readable later, while the request is pending, and after reading everything derived.
	conn.requestParams(); conn.requestUriDecoded(); conn.requestPathDecoded(); conn.requestQueryStringDecoded(); conn.requestFragmentDecoded();
	settle(1);
	compareSeen(c, Seen::of(&conn), r, "later: ");
	for (int i = 0; i < r.headers.size() && i < 12 && !c.failed(); ++i)
	{
		QByteArray key = r.headers.at(i).first; if (i & 1) key = key.toUpper();
		c.eq(conn.requestHeaderValue(key), headerValue(r.headers, key), "requestHeaderValue");
	}
	c.eqn(conn.state(), HttpConnection::SendingHeaders, "state while a request is pending");
	c.eqn(probe.closed, 0, "closed signals");
}

//
// C02
//
void mutate(Gen& g, QByteArray& d)
{
	static const char nastyChars[] = "\r\n\0 :%#?/\t\x7f\xff\"<>{}[]()=,;@*AZaz09"; static const QByteArray nasty(nastyChars, int(sizeof nastyChars) - 1);
	int n = int(1 + g.u(0, 3));
	for (int i = 0; i < n && !d.isEmpty(); ++i)
	{
		int at = int(g.u(0, uint32_t(d.size() - 1)));
		if (g.chance(1, 2)) at = int(g.u(0, uint32_t(qMin(d.size() - 1, 40))));
		char x = g.chance(1, 3) ? char(g.u(0, 255)) : nasty.at(int(g.u(0, uint32_t(nasty.size() - 1))));
		switch (g.u(0, 4))
		{
		case 0: d[at] = x; break;
		case 1: d.insert(at, x); break;
		case 2: d.remove(at, 1); break;
		case 3: d.remove(at, int(g.u(1, 12))); break;
		default: d.truncate(at); break;
		}
	}
}

// Every byte at one position of a request, one connection each.
void sweep(Gen& g, Ctx& c)
{
	c.label("every byte at one position"); c.nontrivial();
	static const QByteArray escapes[] = {"%4f", "%Aa", "%u9B", "%uf0"}; auto esc = [&] { return escapes[g.u(0, 3)]; };
	QByteArray method = g.chance(1, 2) ? g.pickB({"GET", "A", "M-SEARCH", "X.Y_Z$"}) : g.chars(g.u(1, 20), "ABXYZ019-._$");
	auto uriPart = [&](bool slash) { QByteArray r; int n = int(g.u(0, 4)); for (int i = 0; i < n; ++i) r += g.pickB({"a", "Z", "0", esc(), "~", ";", "=", "&", "+", ",", ":", "@", "!", "\xc3\xa9", slash ? "/" : "x", ";p=1"}); return r; };
	QByteArray uri; switch (g.weighted({6, 2, 1, 1})) { case 0: uri = "/" + uriPart(true); break; case 1: uri = g.pickB({"http", "a", "h2+x-y.z", "Z9"}) + ":" + uriPart(true); break; case 2: uri = "*"; break; default: uri = "http://h:80/" + uriPart(true); }
	if (uri != "*" && g.chance(1, 2)) uri += "?" + uriPart(true) + (g.chance(1, 4) ? "?" : "") + uriPart(true); if (g.chance(1, 3)) uri += "#" + uriPart(true);
	QByteArray line = method + " " + uri + " HTTP/" + g.pickB({"1.1", "1.0", "0.9", "10.12", "1.19"}) + "\r\n";
	QByteArray rest; int n = int(g.u(0, 3)); for (int i = 0; i < n; ++i) rest += (g.chance(1, 2) ? g.chars(g.u(1, 4), "abzAMZ09!#$&'*+-.^_`|~") : QByteArray("X-A")) + ":" + g.pickB({"", " ", "  "}) + g.pickB({"", "v", "a b", "\xff:x", "\t", "x\ty"}) + "\r\n";
	const QByteArray text = line + rest + "\r\n"; int at = int(g.chance(2, 3) ? g.u(0, uint32_t(line.size() - 1)) : g.u(0, uint32_t(text.size() - 1))); bool insert = g.chance(1, 3);
	QVector<int> percents; for (int i = 0; i < line.size(); ++i) if (line.at(i) == '%') percents << i;
	if (!percents.isEmpty() && g.chance(1, 2)) { at = percents.at(int(g.u(0, uint32_t(percents.size() - 1)))) + int(g.u(1, 3)); insert = false; c.label("within an escape"); }
	c.desc((insert ? "a byte inserted at " : "a byte replaced at ") + num(at) + " of " + show(text, 300) + "\n");
	for (int b = 0; b < 256 && !c.failed(); ++b)
	{
		QByteArray d = text; if (insert) d.insert(at, char(b)); else d[at] = char(b);
		Verdict v = readRequest(d); if (v.v == Verdict::Valid) { qint64 length = 0; if (bodyLength(v.req, length) != 0 || length > 0) continue; }
		PipeDevice dev; HttpConnection conn; Probe probe(&conn); conn.initialize(&dev, &dev); dev.feed(d);
		QByteArray where = "byte " + num(b) + ": ";
		if (v.v == Verdict::Invalid) { c.eqn(probe.seen.size(), 0, where + "requests announced (it is to be refused)"); c.eq(dev.all(), "HTTP/1.0 400 Bad Request\r\nConnection: close\r\n\r\n", where + "bytes sent"); c.eqn(probe.closed, 1, where + "closed signals"); }
		else
		{
			c.eqn(probe.seen.size(), v.v == Verdict::Valid ? 1 : 0, where + "requests announced"); c.eq(dev.all(), "", where + "bytes sent"); c.eqn(probe.closed, 0, where + "closed signals"); if (c.failed()) return;
			if (v.v == Verdict::Valid) compareSeen(c, probe.seen.last(), v.req, where);
		}
	}
}

void c02(Gen& g, Ctx& c)
{
	if (g.chance(1, 70)) { sweep(g, c); return; }
	PipeDevice in, out; bool same = g.chance(1, 2); QIODevice* outDev = same ? &in : &out; PipeDevice& o = same ? in : out;
	HttpConnection conn; Probe probe(&conn);
	conn.initialize(&in, outDev);
	int warm = int(g.weighted({3, 1, 1}));
	QByteArray expectedOut;
	bool pipelined = warm && g.chance(1, 2); QByteArray prefix;
	QVector<Req> good;
	for (int i = 0; i < warm; ++i)
	{
		Req w; w.method = "PUT"; w.version = "HTTP/1.1"; w.path = w.uri = genPath(g, true, 40); w.body = g.bytes(g.size(100)); w.headers << Hdr("Content-Length", num(w.body.size()));
		prefix += w.wire(); good << w; expectedOut += "HTTP/1.1 204 No Content\r\nContent-Length: 0\r\n\r\n";
	}
	probe.onReady = [&](HttpConnection* h) { if (probe.seen.size() <= warm) h->writeResponse(204); };
	ReqOpts ro; ro.expect = false; ro.maxBody = 3000;
	Req r = genRequest(g, ro);
	QByteArray d; const char* kind = "";
	switch (g.weighted({6, 3, 2, 2, 1}))
	{
	case 0: { QByteArray head = r.headWire(); mutate(g, head); d = head + r.body; kind = "mutated"; break; }
	case 1: // Content-Length values.
	{
		QByteArray v;
		switch (g.u(0, 6))
		{
		case 0: v = g.pickB({"134217728", "134217729", "134217730", "2147483647", "2147483648", "4294967296", "4294967297", "99999999999999999999999", "0", "00", "007", "000000000000000000000000000000000000005"}); break;
		case 1: v = "-" + num(g.u(1, 2000000000)); break;
		case 2: v = g.chars(1 + g.size(8), "0123456789abcdefx.,-;"); break;
		case 3: v = ""; break;
		case 4: v = g.pickB({"-1", "-2147483648", "abc", "1e3", "0x10", "10;", "1,1", "12,12", "3.5", "--5", "5-", "-", "ten"}); break;
		case 5: v = num(134217728ll + g.u(1, 0x7ffffffe)); break;
		default: v = num(g.u(0, 134217728)); break;
		}
		for (int i = r.headers.size() - 1; i >= 0; --i) if (ieq(r.headers.at(i).first, "content-length")) { r.headers.remove(i); r.pads.remove(i); }
		int at = int(g.u(0, uint32_t(r.headers.size()))); r.headers.insert(at, Hdr(g.pickB({"Content-Length", "CONTENT-LENGTH", "content-length"}), v)); r.pads.insert(at, " ");
		r.body = g.bytes(g.size(60));
		d = r.wire(); kind = "content-length"; break;
	}
	case 2: // Oversized heads.
	{
		int target = int(g.weighted({2, 1, 1})); int size = target == 0 ? 32768 + int(g.u(0, 4)) : target == 1 ? 32768 + int(g.u(1, 40000)) : 32768 - int(g.u(0, 3));
		for (int i = r.headers.size() - 1; i >= 0; --i) if (ieq(r.headers.at(i).first, "content-length")) { r.headers.remove(i); r.pads.remove(i); }
		r.body.clear();
		while (r.headWire().size() > size - 10 && !r.headers.isEmpty()) { r.headers.removeLast(); r.pads.removeLast(); }
		int room = size - r.headWire().size();
		switch (g.u(0, 3))
		{
		case 0: r.headers << Hdr("L", QByteArray(room - 5, 'v')); r.pads << " "; d = r.wire(); break;
		case 1: { QByteArray fill; while (room - fill.size() > 40) fill += "A: b\r\n"; fill += "Z: " + QByteArray(room - fill.size() - 5, 'z') + "\r\n"; d = r.headWire(); d.insert(d.size() - 2, fill); break; }
		case 2: d = "GET /" + QByteArray(size - 5 - 13 + 0, 'u') + " HTTP/1.1\r\n\r\n"; break;
		default: d = r.headWire(); d.chop(2); d += "N" + QByteArray(size - d.size() + 5, 'n'); break; // Never completed.
		}
		if (g.chance(1, 3)) d += "trailing bytes after the head";
		kind = "oversized"; break;
	}
	case 3: // Token soup.
	{
		int n = int(g.size(40));
		for (int i = 0; i < n; ++i) d += g.pickB({"GET", "POST", " ", " ", "/", "HTTP/1.1", "HTTP/1.0", "\r\n", "\r\n", "\r", "\n", ":", "A", "A: b\r\n", "Content-Length: 3\r\n", "%41", "%", "?", "#", "*", "http://x", "abc", "\t", "HTTP/", "1.1"});
		kind = "token soup"; break;
	}
	default: d = g.bytes(g.size(400)); kind = "random bytes"; break;
	}
	c.label(kind);
	Verdict v = readRequest(d);
	int expectStatus = 0; bool announced = false, undecided = false, waiting = false; qint64 length = 0;
	if (v.consumed > 32768) expectStatus = 400;
	else if (v.v == Verdict::Invalid) expectStatus = 400;
	else if (v.v == Verdict::Incomplete) waiting = true;
	else
	{
		int s = bodyLength(v.req, length);
		if (s < 0) undecided = true;
		else if (s > 0) expectStatus = s;
		else if (d.size() - v.consumed >= length) { announced = true; v.req.body = d.mid(v.consumed, int(length)); }
		else waiting = true;
	}
	c.label(undecided ? "verdict: left open" : expectStatus == 400 ? "verdict: 400" : expectStatus == 413 ? "verdict: 413" : announced ? "verdict: valid" : "verdict: incomplete");
	if (expectStatus) c.nontrivial();
	QVector<QByteArray> pieces;
	if (pipelined) pieces = g.cut(prefix + d, 200); else { if (warm) pieces << prefix; pieces += g.cut(d, 200); }
	c.desc(QByteArray(kind) + ": after " + num(warm) + (pipelined ? " pipelined" : "") + " good requests: " + show(d, 1500) + "\n" + num(pieces.size()) + " pieces, expected " + (undecided ? QByteArray("anything clean") : expectStatus ? num(expectStatus) : QByteArray(announced ? "announced" : "waiting")));
	for (const QByteArray& p : pieces)
	{
		if (!in.isOpen()) break;
		in.feed(p);
		if (g.chance(1, 30)) settle(1);
	}
	settle(1);
	// A body still expected: the rest of a large one is not sent; nothing may be announced yet.
	for (int i = 0; i < good.size() && i < probe.seen.size(); ++i) compareSeen(c, probe.seen.at(i), good.at(i), "preceding ");
	if (c.failed()) return;
	if (undecided)
	{
		if (probe.closed == 0) c.check(probe.closed <= 1, "closed", "closed more than once");
		return;
	}
	if (expectStatus)
	{
		c.eqn(probe.seen.size(), warm, "requests announced (the last one is to be refused)");
		QByteArray refusal = QByteArray("HTTP/1.0 ") + (expectStatus == 400 ? "400 Bad Request" : "413 Request Entity Too Large") + "\r\nConnection: close\r\n\r\n";
		c.eq(o.all(), expectedOut + refusal, "bytes sent");
		c.eqn(probe.closed, 1, "closed signals after a refusal");
		c.eqn(conn.state(), HttpConnection::Closed, "state after a refusal");
		c.check(!in.isOpen() && !outDev->isOpen(), "devices closed", "a device is still open after a refusal");
		// Nothing more may be taken from the connection.
		c.eqn(probe.completed, warm, "requestCompleted signals");
	}
	else if (announced)
	{
		c.eqn(probe.seen.size(), warm + 1, "requests announced");
		if (c.failed()) return;
		bool cont = expectsContinue(v.req) && length > 0;
		c.eq(o.all(), expectedOut + (cont ? kContinue : QByteArray()), "bytes sent");
		compareSeen(c, probe.seen.last(), v.req, "");
		c.eqn(probe.closed, 0, "closed signals");
	}
	else if (waiting)
	{
		bool cont = v.v == Verdict::Valid && expectsContinue(v.req) && length > 0;
		c.eqn(probe.seen.size(), warm, "requests announced (the last one is incomplete)");
		c.eq(o.all(), expectedOut + (cont ? kContinue : QByteArray()), "bytes sent");
		c.eqn(probe.closed, 0, "closed signals");
	}
}

//
// C07
//
QString decodedRef(const QByteArray& raw) { QByteArray d = refPercentDecode(raw); return QString::fromUtf8(d.constData(), d.size()); }
bool same(const QString& a, const QString& b) { return a == b; }
QByteArray qshow(const QString& s) { return show(s.toUtf8(), 200) + (s.isNull() ? " (null)" : ""); }

// A query string rich in delimiters and escapes, also ones the request grammar admits but no encoder writes.
QByteArray queryFor(Gen& g)
{
	QByteArray q; int n = int(g.size(12));
	int longField = g.chance(1, 10) ? int(g.u(900, 1200)) : 0;
	for (int i = 0; i < n; ++i)
	{
		if (i) q += g.chance(1, 8) ? "&&" : "&";
		switch (g.weighted({4, 3, 1, 1, 1}))
		{
		case 0: q += g.pickB({"a", "b", "A", "B", "key", "Key", "KEY", "k%65y", "%41"}); break;
		case 1: q += genQuery(g, true, 12); break;
		case 2: break;
		case 3: q += g.pickB({"%C3%A9", "%c3%a9", "%C3%89", "%u00", "%E2%82%AC"}); break;
		default: q += QByteArray(longField, 'L'); break;
		}
		if (g.chance(3, 4)) { q += "="; if (g.chance(4, 5)) q += genQuery(g, true, longField && g.chance(1, 2) ? longField + 40 : 20); }
	}
	if (longField && g.chance(1, 2)) { q += "&long="; int pad = int(g.u(1000, 1030)); q += QByteArray(pad, 'x'); q += "%41%42"; }
	return q;
}

void c07(Gen& g, Ctx& c)
{
	PipeDevice dev; HttpConnection conn; Probe probe(&conn);
	conn.initialize(&dev, &dev);
	int rounds = int(1 + g.u(0, 2));
	for (int round = 0; round < rounds && !c.failed(); ++round)
	{
		Req r; r.method = "GET"; r.version = "HTTP/1.1";
		int maxLen = g.chance(1, 6) ? 3000 : 60;
		r.path = genPath(g, true, maxLen);
		if (g.chance(1, 10)) { int len = int(g.u(1015, 1030)); while (r.path.size() < len) r.path += "p"; r.path += g.pickB({"", "%41", "%4", "%20%20"}); if (r.path.endsWith("%4")) r.path += "2"; }
		r.uri = r.path;
		if (g.chance(5, 6)) { r.query = queryFor(g); r.uri += "?" + r.query; }
		if (g.chance(1, 3)) { r.hasFragment = true; r.fragment = genQuery(g, true, maxLen); }
		if (r.headWire().size() > 32000) return;
		c.desc("request " + num(round) + " " + show(r.headWire(), 1200) + "\n");
		int before = probe.seen.size();
		for (const QByteArray& p : g.cut(r.wire())) dev.feed(p);
		if (!c.eqn(probe.seen.size(), before + 1, "announcements")) return;
		// Read the derived values in any order, repeatedly.
		int reads = int(g.u(0, 8));
		QVector<QPair<QString, QString> > model;
		// Model of the parameters.
		int pos = 0;
		while (pos < r.query.size())
		{
			int e = r.query.indexOf('&', pos); if (e < 0) e = r.query.size();
			QByteArray piece = r.query.mid(pos, e - pos); int eq = piece.indexOf('=');
			if (eq < 0) model << qMakePair(decodedRef(piece), QString()); else model << qMakePair(decodedRef(piece.left(eq)), decodedRef(piece.mid(eq + 1)));
			pos = e + 1;
		}
		if (model.size() > 1) c.nontrivial();
		if (r.uri.contains('%')) { c.label("with escapes"); c.nontrivial(); }
		if (r.uri.size() >= 1024) c.label("field of 1024 bytes or more");
		bool edited = false;
		auto compareParams = [&](const QByteArray& when) {
			const HttpParamCollection& ps = conn.requestParams();
			bool eq = ps.size() == model.size();
			for (int i = 0; eq && i < ps.size(); ++i) eq = ps.at(i).first == model.at(i).first && ps.at(i).second == model.at(i).second;
			if (!eq)
			{
				QByteArray m; for (int i = 0; i < ps.size(); ++i) m += "(" + qshow(ps.at(i).first) + "=" + qshow(ps.at(i).second) + ") "; m += " expected "; for (int i = 0; i < model.size(); ++i) m += "(" + qshow(model.at(i).first) + "=" + qshow(model.at(i).second) + ") ";
				c.fail("request params", when + "request params: got " + m);
			}
		};
		auto ci = [](const QString& a, const QString& b) { return a.compare(b, Qt::CaseInsensitive) == 0; };
		for (int i = 0; i < reads + 2 && !c.failed(); ++i)
		{
			switch (i < reads ? g.u(0, 8) : 0)
			{
			case 0:
				c.check(same(conn.requestUriDecoded(), decodedRef(r.uri)), "decoded uri", "decoded uri: " + qshow(conn.requestUriDecoded()) + " expected " + qshow(decodedRef(r.uri)));
				c.check(same(conn.requestPathDecoded(), decodedRef(r.path)), "decoded path", "decoded path: " + qshow(conn.requestPathDecoded()) + " expected " + qshow(decodedRef(r.path)));
				c.check(same(conn.requestQueryStringDecoded(), decodedRef(r.query)), "decoded query", "decoded query: " + qshow(conn.requestQueryStringDecoded()) + " expected " + qshow(decodedRef(r.query)));
				c.check(same(conn.requestFragmentDecoded(), decodedRef(r.fragment)), "decoded fragment", "decoded fragment: " + qshow(conn.requestFragmentDecoded()) + " expected " + qshow(decodedRef(r.fragment)));
				break;
			case 1: c.check(same(conn.requestPathDecoded(), decodedRef(r.path)), "decoded path", "decoded path: " + qshow(conn.requestPathDecoded()) + " expected " + qshow(decodedRef(r.path))); break;
			case 2: compareParams(edited ? "after edits: " : ""); break;
			case 3: case 4:
			{
				QString name = !model.isEmpty() && g.chance(3, 4) ? model.at(int(g.u(0, uint32_t(model.size() - 1)))).first : QString::fromLatin1(g.pickB({"a", "B", "missing", "KEY", ""}));
				if (g.chance(1, 2)) name = g.chance(1, 2) ? name.toUpper() : name.toLower();
				QString want; bool found = false;
				for (int k = 0; k < model.size() && !found; ++k) if (ci(model.at(k).first, name)) { want = model.at(k).second; found = true; }
				QString got = conn.requestParamValue(name);
				c.check(got == want, "param lookup", "param value of " + qshow(name) + ": got " + qshow(got) + " expected " + qshow(want));
				if (!found) c.check(got.isNull(), "missing param", "value of a missing parameter is not null"); 
				break;
			}
			case 5: case 6: case 7:
			{
				QString name = !model.isEmpty() && g.chance(1, 2) ? model.at(int(g.u(0, uint32_t(model.size() - 1)))).first : QString::fromLatin1(g.pickB({"a", "B", "new", "KEY"}));
				if (g.chance(1, 3)) name = name.toUpper();
				QString value = QString::fromLatin1(g.chars(g.size(10), "abc%41+& ="));
				conn.setRequestParam(name, value); edited = true; c.label("parameter set");
				int k = 0; for (; k < model.size(); ++k) if (ci(model.at(k).first, name)) break;
				if (k < model.size()) model[k] = qMakePair(name, value); else model << qMakePair(name, value);
				compareParams("after setting a parameter: ");
				break;
			}
			default: c.check(same(conn.requestQueryStringDecoded(), decodedRef(r.query)), "decoded query", "decoded query: " + qshow(conn.requestQueryStringDecoded())); break;
			}
		}
		compareParams("at the end: ");
		if (c.failed()) return;
		compareSeen(c, Seen::of(&conn), r, "raw fields after decoding: ");
		conn.writeResponse(200);
	}
}

}

int main(int argc, char** argv)
{
	std::vector<pbt::Check> checks = {
		{"C01", "One request generated from the request grammar (method, path/absolute/star URI, query, fragment, version, headers, body up to megabytes, Expect), optionally after warm-up requests on the same connection, cut into reads (whole, bytewise, random); the oracle compares every accessor with what was generated, at each piece. Non-trivial: delivered in several pieces, or with a body, or with more than three headers.",
			80000, 1500000, c01, 40, 7, {"The request grammar is the one of parser/common.rl.", "Devices are in-memory QIODevices with partial reads."}, {"segmented", "with body", "100-continue", "head at the size limit", "more than 32 headers", "body of megabytes"}},
		{"C02", "Byte streams: mutated valid requests, Content-Length values, oversized heads, token soup, random bytes, every byte value at one position of a request; alone or after good requests (pipelined or not); cut at random. An independent reader of the grammar gives the verdict (refuse with 400/413, announce, wait). Non-trivial: the verdict is a refusal.",
			220000, 8000000, c02, 40, 7, {"Content-Length values with blanks or a plus sign are left open."}, {"verdict: 400", "verdict: 413", "verdict: valid", "oversized", "every byte at one position"}},
		{"C07", "Requests whose path, query and fragment are rich in escapes and delimiters (lengths around the 1024-byte fast path included), followed by a random sequence of reads of decoded fields, parameter lookups and parameter edits, on one to three requests of a connection, against reference decoders and a list model. Non-trivial: an escape occurs or there are two or more parameters.",
			100000, 3000000, c07, 40, 7, {}, {"parameter set", "field of 1024 bytes or more", "with escapes"}},
	};
	return pbt::main(argc, argv, checks);
}

#include "check_request.moc"
