// C17 requests on the wire, C18 outcomes of client requests, C19 gzip content.
#include "respgen.h"
#include "fakeclock.h"
#include "netsupport.h"
#include "HttpClient.h"
#include <QtCore/QBuffer>
#include <zlib.h>

using namespace Pillow;

namespace {

QByteArray refRequest(const QByteArray& method, const QByteArray& target, const Hdrs& headers, const QByteArray& data)
{
	QByteArray w = method + " " + target + " HTTP/1.1\r\n"; for (const Hdr& h : headers) w += h.first + ": " + h.second + "\r\n";
	if (!data.isEmpty()) w += "Content-Length: " + num(data.size()) + "\r\n";
	return w + "\r\n" + data;
}
void issue(HttpClient& c, const QByteArray& m, const QUrl& u, const Hdrs& h, const QByteArray& d, bool generic)
{
	if (generic) c.request(m, u, toColl(h), d);
	else if (m == "GET") c.get(u, toColl(h)); else if (m == "HEAD") c.head(u, toColl(h)); else if (m == "POST") c.post(u, toColl(h), d); else if (m == "PUT") c.put(u, toColl(h), d); else if (m == "DELETE") c.deleteResource(u, toColl(h)); else { HttpClientRequest r; r.method = m; r.url = u; r.headers = toColl(h); r.data = d; c.request(r); }
}
bool dropsData(const QByteArray& m, bool generic) { return !generic && (m == "GET" || m == "HEAD" || m == "DELETE"); }

//
// C17
//
void c17writer(Gen& g, Ctx& c)
{
	c.label("request writer");
	PipeDevice a, b; PipeDevice* d = &a; QByteArray wantA, wantB; HttpRequestWriter w;
	if (g.chance(1, 20)) { w.get("/nowhere"); c.label("without a device"); }
	w.setDevice(d); int n = int(g.u(1, 6));
	for (int i = 0; i < n && !c.failed(); ++i)
	{
		if (i && g.chance(1, 8)) { d = d == &a ? &b : &a; w.setDevice(d); c.label("device changed"); }
		if (w.device() != d) c.fail("device", "device() is not the device set");
		QByteArray m = genMethod(g), p = genTarget(g, false).wire(); Hdrs h = genHdrs(g); QByteArray data = genData(g); bool generic = g.chance(1, 2);
		if (generic) w.write(m, p, toColl(h), data);
		else if (m == "GET") w.get(p, toColl(h)); else if (m == "HEAD") w.head(p, toColl(h)); else if (m == "POST") w.post(p, toColl(h), data); else if (m == "PUT") w.put(p, toColl(h), data); else if (m == "DELETE") w.deleteResource(p, toColl(h)); else w.write(m, p, toColl(h), data);
		QByteArray want = refRequest(m, p, h, dropsData(m, generic) ? QByteArray() : data); (d == &a ? wantA : wantB) += want;
		c.desc(m + " " + num(p.size()) + "+" + num(h.size()) + " headers+" + num(data.size()) + "; ");
		if (want.size() - data.size() > 16384) c.label("head beyond 16 KiB"); if (data.size() >= 4096) c.label("body of 4 KiB or more"); if (!data.isEmpty()) c.label("body");
		if (i || !data.isEmpty() || !h.isEmpty()) c.nontrivial();
		c.eq(a.delivered, wantA, "bytes written after request " + num(i)); c.eq(b.delivered, wantB, "bytes written to the other device after request " + num(i));
	}
}

class Waiter : public QObject {
	Q_OBJECT
public:
	int finished; Waiter(HttpClient* c) : finished(0) { connect(c, SIGNAL(finished()), this, SLOT(done())); }
public slots:
	void done() { ++finished; }
};

void c17client(Gen& g, Ctx& c)
{
	c.label("client"); c.nontrivial();
	RawServer s[2]; bool v6 = g.chance(1, 10); QVector<QByteArray> hosts;
	for (int i = 0; i < 2; ++i)
	{
		const char* how = i && !v6 ? s[i].startSecond(g, s[0]) : 0; bool ok = i && !v6 ? how != 0 : s[i].start(g, v6 && i); if (how) c.label(how); if (!ok && v6) { c.label("no IPv6 here"); ok = s[i].start(g); } if (!ok) { c.label("no socket"); return; }
		s[i].answer = [&g](const SReq&, int) { SAns a; a.segments << (g.chance(3, 4) ? "HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n" : "HTTP/1.1 200 OK\r\nContent-Length: 0\r\nConnection: close\r\n\r\n"); return a; };
	}
	if (s[1].serverAddress().protocol() == QAbstractSocket::IPv6Protocol) c.label("IPv6 host");
	RawServer p80; if (g.chance(1, 10)) { if (p80.listen(QHostAddress(quint32(0x7f000000u | (quint32(getpid() & 0xff) << 16) | g.u(1, 0xfffe))), 80)) { c.label("port 80"); p80.answer = s[0].answer; } }
	HttpClient client; Waiter w(&client); int n = int(g.u(1, 5)), expect[3] = {0, 0, 0};
	for (int i = 0; i < n && !c.failed(); ++i)
	{
		int k = int(g.u(0, p80.isListening() ? 2 : 1)); RawServer& t = k == 2 ? p80 : s[k];
		QByteArray m = genMethod(g); Target target = genTarget(g); Hdrs h = genHdrs(g); QByteArray data = genData(g); bool generic = g.chance(1, 2);
		QByteArray authority = k == 2 ? t.host() : t.authority(), in = k == 2 && g.chance(1, 2) ? t.host() + ":80" : authority;
		QUrl url = QUrl::fromEncoded(target.url(QByteArray("http://") + (g.chance(1, 10) ? "user:pw@" : "") + in) + (g.chance(1, 10) ? "#fragment" : ""));
		if (!url.isValid()) { c.label("invalid URL"); continue; }
		c.desc(m + " " + show(url.toEncoded(), 100) + " " + num(h.size()) + " headers, " + num(data.size()) + " bytes; ");
		if (target.path.isEmpty()) c.label("empty path"); if (data.size() >= 4096) c.label("body of 4 KiB or more");
		int before = w.finished; issue(client, m, url, h, data, generic); ++expect[k];
		if (!waitUntil([&]() { return w.finished > before; }, 20000)) { c.fail("request", "the request did not reach the server whole, or its response did not arrive: " + show(t.conns.isEmpty() ? QByteArray("no connection") : t.conns.last()->raw, 300)); return; }
		if (client.error() != HttpClient::NoError) { c.fail("request", "client error " + num(client.error())); return; }
		if (t.requests.size() != expect[k]) { c.fail("request", num(t.requests.size()) + " requests at the server, expected " + num(expect[k])); return; }
		const SReq& r = t.requests.last(); Hdrs want; want << Hdr("Host", authority); want += h; if (dropsData(m, generic)) data.clear();
		c.eq(r.head + r.body, refRequest(m, target.wire(), want, data), "request " + num(i) + " on the wire");
	}
	settle();
	for (RawServer* t : {&s[0], &s[1], &p80}) { if (t->stray) c.fail("request", "bytes of another request arrived before the response"); for (RawConn* k : t->conns) if (!k->in.isEmpty()) c.fail("request", "stray bytes on a connection: \"" + show(k->in) + "\""); }
	if (s[0].requests.size() != expect[0] || s[1].requests.size() != expect[1]) c.fail("request", "number of requests received");
}
void c17(Gen& g, Ctx& c) { if (g.chance(1, 2)) c17writer(g, c); else c17client(g, c); }

//
// C18, C19
//
struct Step {
	enum Kind { Complete, Truncated, Garbage, Refused, Early, Hang } kind; enum Abort { None, AtOnce, Later, OnHeaders, OnContent } abort;
	Msg msg; QByteArray content; bool contentKnown; SAns ans; int server; QByteArray method; Target target; Hdrs headers; QByteArray data; bool generic, fromHandler, follow, again, consume; int buffer, keepAlive, abortAfter, cut; bool headWhole, wantsPoll; QByteArray location; bool isRedirect; int interims; bool expired, gzip; long long idle;
	Step() : kind(Complete), abort(None), contentKnown(true), server(0), generic(true), fromHandler(false), follow(false), again(false), consume(false), buffer(0), keepAlive(-1), abortAfter(0), cut(0), headWhole(true), wantsPoll(false), isRedirect(false), interims(0), expired(false), gzip(false), idle(0) {}
};
struct Got { int finished, headersSignals, contentSignals; int error, status; Hdrs headers; QByteArray content, taken; bool early, pendingAtFinish, redirected, aborted, contentFirst; QByteArray location; Got() : finished(0), headersSignals(0), contentSignals(0), error(-1), status(0), early(false), pendingAtFinish(false), redirected(false), aborted(false), contentFirst(false) {} };

class Driver : public QObject {
	Q_OBJECT
public:
	HttpClient client; QVector<Step>& steps; QVector<Got> got; int cur, finishes; RawServer* servers; quint16 dead; QTimer abortTimer, poll;
	Driver(QVector<Step>& s, RawServer* r, quint16 d) : steps(s), got(s.size()), cur(-1), finishes(0), servers(r), dead(d)
	{
		connect(&client, SIGNAL(headersCompleted()), this, SLOT(onHeaders())); connect(&client, SIGNAL(contentReadyRead()), this, SLOT(onContent())); connect(&client, SIGNAL(finished()), this, SLOT(onFinished()));
		abortTimer.setSingleShot(true); connect(&abortTimer, SIGNAL(timeout()), this, SLOT(doAbort())); connect(&poll, SIGNAL(timeout()), this, SLOT(onPoll()));
	}
	void go(int i)
	{
		cur = i; Step& s = steps[i];
		if (s.wantsPoll) poll.start(1); else poll.stop();
		client.setReadBufferSize(s.buffer); client.setKeepAliveTimeout(s.keepAlive);
		if (s.follow) client.followRedirection();
		else
		{
			QByteArray base = "http://" + (s.kind == Step::Refused ? servers[0].host() + ":" + num(dead) : servers[s.server].authority());
			issue(client, s.method, QUrl::fromEncoded(s.target.url(base)), s.headers, s.data, s.generic);
		}
		if (s.again && cur == i && client.responsePending()) { client.get(QUrl::fromEncoded("http://" + servers[0].authority() + "/refused")); client.followRedirection(); }
		if (s.abort == Step::AtOnce && cur == i) doAbort();
		if (s.abort == Step::Later && cur == i) abortTimer.start(s.abortAfter);
	}
public slots:
	void doAbort() { Got& g = got[cur]; if (client.responsePending() && !g.finished) g.aborted = true; client.abort(); }
	void onHeaders()
	{
		if (cur < 0) return; Got& g = got[cur]; ++g.headersSignals; if (g.contentSignals) g.contentFirst = true; g.status = client.statusCode(); g.headers = toHdrs(client.headers());
		if (steps[cur].abort == Step::OnHeaders) doAbort();
	}
	void onContent()
	{
		if (cur < 0) return; Got& g = got[cur]; ++g.contentSignals; if (!g.headersSignals) g.contentFirst = true;
		if (steps[cur].consume) g.taken += client.consumeContent();
		if (steps[cur].abort == Step::OnContent && g.contentSignals > steps[cur].abortAfter) doAbort();
	}
	void onPoll() { if (cur >= 0 && client.responsePending() && steps[cur].wantsPoll && !client.content().isEmpty()) got[cur].taken += client.consumeContent(); }
	void onFinished()
	{
		++finishes; abortTimer.stop();
		if (cur < 0) return; Got& g = got[cur]; ++g.finished; if (g.finished > 1) return;
		g.error = client.error(); g.pendingAtFinish = client.responsePending(); g.status = client.statusCode(); g.headers = toHdrs(client.headers()); g.content = g.taken + client.content(); g.redirected = client.redirected(); g.location = client.redirectionLocation();
		if (cur + 1 < steps.size() && steps[cur + 1].fromHandler) go(cur + 1);
	}
};

QByteArray gzip(const QByteArray& data, int level, int memLevel, int strategy, int flushEvery, int* members = 0, int windowBits = 31)
{
	QByteArray r; z_stream z; memset(&z, 0, sizeof z); deflateInit2(&z, level, Z_DEFLATED, windowBits, memLevel, strategy);
	QByteArray out(70000, 0); int at = 0;
	do
	{
		int n = flushEvery > 0 ? qMin(flushEvery, data.size() - at) : data.size() - at; z.next_in = (Bytef*)data.constData() + at; z.avail_in = n; at += n; int rc;
		do { z.next_out = (Bytef*)out.data(); z.avail_out = out.size(); rc = deflate(&z, at >= data.size() ? Z_FINISH : Z_SYNC_FLUSH); r.append(out.constData(), out.size() - z.avail_out); } while (z.avail_out == 0 || (at >= data.size() && rc != Z_STREAM_END));
	} while (at < data.size());
	deflateEnd(&z); (void)members; return r;
}
QByteArray genPlain(Gen& g)
{
	switch (g.weighted({3, 3, 3, 2, 2}))
	{
	case 0: return g.bytes(g.size(200));
	case 1: { QByteArray w = g.chars(g.u(1, 20), "abc <>\n"); QByteArray r; int n = int(g.size(8000)); while (r.size() < n) r += w; return r; }
	case 2: return QByteArray(int(g.size(400000)), char(g.u(0, 255)));
	case 3: return g.bytes(g.size(100000));
	default: { QByteArray r; int k = int(g.u(1, 6)); for (int i = 0; i < k; ++i) r += g.chance(1, 2) ? QByteArray(int(g.size(100000)), 'x') : g.bytes(g.size(5000)); return r; }
	}
}

void run(Gen& g, Ctx& c, bool gz)
{
	const char* how = 0; RawServer servers[2]; if (!servers[0].start(g) || !(how = servers[1].startSecond(g, servers[0]))) { c.label("no socket"); return; }
	c.label(how);
	quint16 dead = 1; { RawServer d; if (d.listen(servers[0].serverAddress(), 0)) dead = d.serverPort(); }
	QVector<Step> steps; int n = int(g.u(1, gz ? 4 : 5)); QVector<int> order[2];
	for (int i = 0; i < n; ++i)
	{
		Step s; s.method = gz ? g.pickB({"GET", "POST"}) : genMethod(g); s.target = genTarget(g); s.generic = g.chance(1, 2); s.server = g.chance(1, 5) ? 1 : 0; s.headers = g.chance(1, 4) ? genHdrs(g) : Hdrs(); if (!dropsData(s.method, s.generic) && g.chance(1, 3)) s.data = genData(g, 200000);
		s.target.path = "/" + num(i) + s.target.path;
		s.kind = Step::Kind(g.weighted({uint32_t(gz ? 30 : 14), uint32_t(gz ? 4 : 4), uint32_t(gz ? 0 : 3), uint32_t(gz ? 0 : 1), uint32_t(gz || i + 1 == n ? 0 : 1), uint32_t(gz ? 0 : 1)}));
		if (i > 0 && g.chance(1, 3)) s.fromHandler = true;
		bool head = s.method == "HEAD";
		MsgOpts o; o.informational = false; o.head = head; o.blanks = true; o.maxBody = 200000; Hdrs extra; QByteArray wireBody; const QByteArray* given = 0; if (gz) o.upgrade = false;
		if (gz)
		{
			QByteArray plain = genPlain(g); QByteArray label; s.content = plain;
			switch (g.weighted({10, 3, 3, 2, 2}))
			{
			case 0: // Gzip.
			{
				static const int levels[] = {-1, 0, 1, 6, 9}; int level = levels[g.u(0, 4)], strategy = g.chance(1, 5) ? Z_HUFFMAN_ONLY : g.chance(1, 5) ? Z_FIXED : Z_DEFAULT_STRATEGY; int flush = g.chance(1, 4) ? int(g.u(1, 20000)) : 0; if (flush && plain.size() / flush > 300) flush = plain.size() / 300 + 1;
				label = g.pickB({"gzip", "GZIP", "Gzip"}); wireBody = gzip(plain, level, int(g.u(1, 9)), strategy, flush); c.label("gzip"); if (level == 0) c.label("stored blocks"); if (flush) c.label("sync flushes"); s.gzip = true;
				if (plain.size() > 40000 && plain.size() > wireBody.size() * 100) c.label("expansion over 100 times");
				if (g.chance(1, 8)) { QByteArray more = genPlain(g); wireBody += gzip(more, 6, 8, 0, 0); s.content += more; c.label("several gzip members"); }
				if (plain.isEmpty()) c.label("empty gzip");
				if (g.chance(1, 10) && wireBody.size() > 30) { int at = int(g.u(10, uint32_t(wireBody.size() - 1))); if (g.chance(1, 2)) wireBody.truncate(at); else wireBody[at] = char(wireBody.at(at) ^ (1 << g.u(0, 7))); s.contentKnown = false; c.label("corrupt gzip"); }
				break;
			}
			case 1: // Not gzip from its first byte on.
				label = "gzip"; if (plain.isEmpty()) plain = "x"; if (plain.at(0) == '\x1f') plain[0] = 'y'; if (g.chance(1, 6)) { plain = "\x1f" + plain; if (plain.at(1) == '\x8b') plain[1] = 'q'; c.label("half a gzip magic"); }
				if (g.chance(1, 3)) { QByteArray z = gzip(plain, int(g.u(0, 9)), 8, 0, 0, 0, g.chance(2, 3) ? int(g.u(9, 15)) : -int(g.u(9, 15))); if (!z.startsWith("\x1f\x8b")) { plain = z; c.label("labelled gzip, is zlib or deflate"); } }
				wireBody = s.content = plain; c.label("labelled gzip, is not"); break;
			case 2: wireBody = plain; break;
			case 3: label = g.pickB({"identity", "deflate", "br", "gzipped", "xgzip", "gzi"}); wireBody = s.content = gzip(plain, 6, 8, 0, 0); c.label("gzip data, labelled otherwise"); break;
			default: wireBody = s.content = gzip(plain, 6, 8, 0, 0); c.label("gzip data, not labelled");
			}
			if (!label.isEmpty()) extra << Hdr(g.pickB({"Content-Encoding", "content-encoding", "CONTENT-ENCODING"}), label);
			given = &wireBody; static const int st[] = {200, 200, 200, 404, 500, 301}; o.status = st[g.u(0, 5)]; 
		}
		else if (g.chance(1, 7))
		{
			static const int st[] = {300, 301, 302, 303, 307, 304, 305, 200}; o.status = st[g.u(0, 7)];
			s.isRedirect = o.status != 304 && o.status != 305 && o.status != 200;
		}
		// A redirection may be followed by the next step.
		bool follow = s.isRedirect && s.kind == Step::Complete && i + 1 < n && g.chance(3, 4);
		Target next; int nextServer = s.server;
		if (s.isRedirect || g.chance(1, 10))
		{
			next.path = "/" + num(i + 1) + "r"; next.hasQuery = g.chance(1, 3); next.query = "q=" + num(i);
			switch (g.u(0, 3))
			{
			case 0: nextServer = int(g.u(0, 1)); s.location = next.url("http://" + servers[nextServer].authority()); break;
			case 1: s.location = next.url(""); c.label("absolute path as location"); break;
			case 2: { QByteArray name = "rel" + num(i); QByteArray p = s.target.path; s.location = name + (next.hasQuery ? "?" + next.query : QByteArray()); next.path = p.left(p.lastIndexOf('/') + 1) + name; c.label("relative location"); break; }
			default: s.location = "?only=query"; next.path = s.target.path; next.hasQuery = true; next.query = "only=query"; c.label("relative location"); break;
			}
			// Keep dot segments out of what is resolved.
			if (s.target.path.contains("/.") || s.target.path.contains("//")) { next.path = "/" + num(i + 1) + "r"; s.location = next.url("http://" + servers[nextServer].authority()); }
			extra << Hdr(g.pickB({"Location", "location"}), s.location);
		}
		if (i > 0 && steps.last().follow) {} // Set below.
		s.msg = genMsg(g, o, extra, given); if (!gz) s.content = s.msg.body;
		if (bodilessStatus(s.msg.status) || head) s.content.clear();
		s.consume = g.chance(1, 3); if (g.chance(1, 5)) { s.buffer = int(g.chance(1, 2) ? g.u(1, 100) : g.u(100, 5000)); if (s.buffer < 20 && s.msg.wire().size() > 3000) s.buffer = 2000; s.consume = g.chance(1, 2); s.wantsPoll = !s.consume; if (s.wantsPoll && s.msg.wire().size() > s.buffer * 100) s.buffer = s.msg.wire().size() / 50 + 1; }
		if (g.chance(1, 4)) s.keepAlive = g.chance(1, 4) ? 0 : g.chance(1, 6) ? 1 : int(g.u(20000, g.chance(1, 3) ? 2000000000 : 100000));
		// Time that passes before the request: clearly less or more than the timeout.
		if (g.chance(1, 3)) s.idle = s.keepAlive > 0 && g.chance(1, 2) ? s.keepAlive + (g.chance(1, 2) ? 1LL : g.u(2, 1000000000)) : s.keepAlive > 16000 ? g.u(0, uint32_t(s.keepAlive - 16000)) : s.keepAlive == 1 ? 0 : g.u(1, 1000000000);
		if (i > 0 && g.chance(1, 10)) s.again = true;
		// Expected bytes and what happens to the connection.
		QByteArray wire = s.msg.wire(); s.ans.end = s.msg.framing == Msg::Eof && !head ? SAns::Close : SAns::Keep;
		if (s.kind == Step::Complete && s.ans.end == SAns::Keep && g.chance(1, 5)) { s.ans.end = SAns::Close; s.ans.endGap = int(g.u(0, 1)); }
		if (s.kind == Step::Truncated) { int whole = wire.size(); s.cut = int(g.chance(1, 2) ? g.u(0, uint32_t(qMin(whole - 1, s.msg.headWire.size() + 20))) : g.u(0, uint32_t(whole - 1))); s.headWhole = s.cut >= s.msg.headWire.size(); wire.truncate(s.cut); s.ans.end = SAns::Close; if (head || bodilessStatus(s.msg.status)) s.headWhole = false; }
		if (s.kind == Step::Garbage)
		{
			static const QByteArray bad[] = {"\x16\x03\x01", "HTTQ/1.1 200 OK\r\n\r\n", "HTTP/1.1 abc\r\n\r\n", "HTTP/x\r\n", "HTTP/1.1 200 OK\r\nbad\x01: x\r\n\r\n", "HTTP/1.1 200 OK\r\nContent-Length: x\r\n\r\n", "HTTP/1.1 200 OK\r\nContent-Length: 99999999999999999999999\r\n\r\n", "HTTP/1.1 2000 OK\r\n\r\n", "<html>", "HTTP/1.1 200 OK\r\n bad", "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\n", "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n3\r\nabcd\r\n", "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\nffffffffffffffffff\r\n"};
			int k = int(g.u(0, sizeof bad / sizeof *bad - 1)); if (head && k >= 10) k = 0; wire = bad[k]; s.ans.end = g.chance(1, 2) ? SAns::Keep : SAns::Close; s.ans.endGap = 1; s.content = wire.mid(wire.indexOf("3\r\n") > 0 ? wire.indexOf("3\r\n") + 3 : wire.size());
		}
		if (s.kind == Step::Hang) { s.abort = g.chance(1, 2) ? Step::Later : Step::AtOnce; wire = g.chance(1, 2) ? QByteArray() : wire.left(int(g.u(0, uint32_t(wire.size() - 1)))); if (head || bodilessStatus(s.msg.status)) wire.clear(); if (wire.size() >= s.msg.headWire.size() && s.msg.framing == Msg::Eof) s.ans.end = SAns::Keep; s.ans.end = SAns::Stall; s.abortAfter = int(g.u(0, 6)); }
		else if (s.kind != Step::Early && g.chance(1, 8)) { s.abort = Step::Abort(g.u(1, 4)); s.abortAfter = int(s.abort == Step::Later ? g.u(0, 4) : g.u(0, 3)); }
		if (gz && s.kind == Step::Truncated) s.contentKnown = false;
		if (s.kind == Step::Early) { s.method = "POST"; s.generic = true; s.data = QByteArray(8000000, 'u'); s.ans.early = true; s.abort = Step::None; s.ans.end = SAns::Stall; wire = "HTTP/1.1 413 Request Entity Too Large\r\nContent-Length: 3\r\nConnection: close\r\n\r\nbig"; s.msg = Msg(); s.msg.status = 413; s.msg.version = "HTTP/1.1"; s.msg.headers = Hdrs() << Hdr("Content-Length", "3") << Hdr("Connection", "close"); s.msg.framing = Msg::Length; s.msg.body = s.content = "big"; s.msg.keepAlive = false; s.msg.headWire = wire.left(wire.size() - 3); s.msg.bodyWire = "big"; s.buffer = 0; s.wantsPoll = false; s.isRedirect = false; s.location.clear(); c.label("response before the request was read"); }
		if (s.kind != Step::Refused && g.chance(1, 7)) { s.interims = int(g.u(1, 3)); QByteArray pre; for (int k = 0; k < s.interims; ++k) { bool other = g.chance(1, 4); if (other) c.label("interim response other than 100"); pre += "HTTP/1.1 " + (other ? g.pickB({"102 Processing", "103 Early Hints", "110 x", "199 Miscellaneous"}) : QByteArray("100 Continue")) + "\r\n" + (g.chance(1, 2) ? QByteArray() : g.pickB({"X-Interim: 1\r\nServer: x\r\n", "Link: </a.css>; rel=preload\r\nContent-Type: x/y\r\n", "Location: /nowhere\r\n"})) + "\r\n"; } wire = pre + wire; c.label("100 Continue"); if (s.interims > 1) c.label("several 100 Continue"); }
		segment(g, s.ans, wire);
		steps << s;
		if (follow && s.abort == Step::None)
		{
			Step t = s; t.follow = true; t.target = next; t.server = nextServer; t.kind = Step::Complete; t.ans = SAns(); t.abort = Step::None; t.isRedirect = false; t.location.clear(); t.interims = 0; t.again = false; t.fromHandler = g.chance(1, 2); t.buffer = 0; t.wantsPoll = false; t.keepAlive = -1; t.idle = 0;
			MsgOpts q; q.informational = false; q.head = head; q.eof = false; q.close = false; t.msg = genMsg(g, q); t.content = head ? QByteArray() : t.msg.body; segment(g, t.ans, t.msg.wire()); steps << t; ++i; c.label("redirection followed");
		}
	}
	// A request sent from within a finished handler must not meet a connection the server is about to close on its own.
	for (int i = 0; i + 1 < steps.size(); ++i) if (steps.at(i + 1).fromHandler) { Step& s = steps[i]; if (s.kind == Step::Complete && s.ans.end == SAns::Close && (s.msg.framing != Msg::Eof || s.msg.head) && s.msg.keepAlive) { s.ans.end = SAns::Keep; s.ans.endGap = -1; } if (s.kind == Step::Garbage) s.ans.end = SAns::Keep; }

	QVector<int> stepOf[2]; // The step of each request at each server.
	Driver d(steps, servers, dead);
	for (int k = 0; k < 2; ++k)
	{
		servers[k].answer = [&, k](const SReq& r, int) { int i = d.cur; while (i > 0 && steps.at(i).target.wire() != r.target) --i; if (i < 0 || steps.at(i).target.wire() != r.target) i = d.cur; stepOf[k] << i; return i >= 0 && i < steps.size() ? steps.at(i).ans : SAns(); };
		servers[k].onHead = [&, k](const SReq&, SAns& a) { if (d.cur < 0 || d.cur >= steps.size() || !steps.at(d.cur).ans.early) return false; stepOf[k] << d.cur; a = steps.at(d.cur).ans; return true; };
	}
	for (int i = 0; i < steps.size(); ++i)
	{
		const Step& s = steps.at(i); static const char* kinds[] = {"complete", "truncated", "garbage", "refused", "early", "hang"}; static const char* aborts[] = {"", " abort at once", " abort later", " abort on headers", " abort on content"};
		c.desc(num(i) + ": " + s.method + (s.follow ? " (followed)" : "") + (s.fromHandler ? " (from handler)" : "") + " " + kinds[s.kind] + (s.kind == Step::Truncated ? " at " + num(s.cut) : QByteArray()) + aborts[s.abort] + " " + s.msg.text() + (s.interims ? " after " + num(s.interims) + " interim" : QByteArray()) + (s.buffer ? " buffer " + num(s.buffer) : QByteArray()) + (s.consume ? " consumed" : s.wantsPoll ? " polled" : "") + (s.keepAlive != -1 ? " timeout " + num(s.keepAlive) : QByteArray()) + (s.idle ? " after " + num(s.idle) + " ms" : QByteArray()) + (s.isRedirect ? " -> " + s.location : QByteArray()) + (s.gzip ? " gzip" : "") + (s.data.isEmpty() ? QByteArray() : " sending " + num(s.data.size())) + "; ");
		if (s.fromHandler) c.label("request from a finished handler"); if (s.buffer) c.label("limited read buffer"); if (s.again) c.label("request while pending"); if (s.fromHandler && s.again) c.label("second request from a finished handler"); if (s.fromHandler && s.abort == Step::AtOnce) c.label("request and abort in a finished handler"); c.label(kinds[s.kind]); if (s.abort) c.label(aborts[s.abort] + 1);
		if (s.method == "HEAD") c.label("HEAD");
	}
	if (steps.size() > 1 || steps.at(0).kind != Step::Complete || steps.at(0).ans.segments.size() > 1) c.nontrivial();

	QTcpSocket* sock = d.client.findChild<QTcpSocket*>();
	int lastConn = -1, lastServer = -1; bool canReuse = false, mustReuse = false;
	for (int i = 0; i < steps.size(); ++i)
	{
		Step& s = steps[i]; Got& o = d.got[i];
		if (!s.fromHandler)
		{
			// Let the close by the server after the previous response arrive.
			if (i > 0 && steps.at(i - 1).ans.end == SAns::Close && sock && !waitUntil([&]() { return sock->state() != QAbstractSocket::ConnectedState; }, 15000)) { c.fail("stuck", "the client does not notice the close of its idle connection"); return; }
			if (i > 0 && s.idle) { settle(1); passed += s.idle; s.expired = s.keepAlive > 0 && s.idle > s.keepAlive; c.label(s.expired ? "keep-alive timeout passed" : "time passes"); }
			d.go(i);
		}
		QByteArray where = "request " + num(i);
		if (!waitUntil([&]() { return d.got.at(i).finished > 0; }, 25000)) { c.fail("never finished", where + " did not finish; " + num(d.got.at(i).headersSignals) + " header signals, " + num(d.got.at(i).taken.size() + d.client.content().size()) + " bytes of content"); return; }
		bool headDone = s.kind == Step::Complete || s.kind == Step::Early || (s.kind == Step::Truncated && s.headWhole);
		int want = HttpClient::NoError;
		if (o.aborted) want = HttpClient::AbortedError;
		else if (s.kind == Step::Truncated) want = s.headWhole && s.msg.framing == Msg::Eof ? HttpClient::NoError : HttpClient::RemoteHostClosedError;
		else if (s.kind == Step::Garbage) want = HttpClient::ResponseInvalidError;
		else if (s.kind == Step::Refused) want = HttpClient::NetworkError;
		static const char* errors[] = {"NoError", "NetworkError", "ResponseInvalidError", "RemoteHostClosedError", "AbortedError"};
		if (o.aborted) c.label("aborted");
		if (o.error != want) { c.fail("error", where + " finished with " + errors[qBound(0, o.error, 4)] + ", expected " + errors[want] + "; " + num(o.content.size()) + " bytes of content"); return; }
		if (o.pendingAtFinish) { c.fail("finish", where + ": responsePending() while finished() is emitted"); return; }
		if (o.contentFirst) { c.fail("signals", where + ": content before headersCompleted()"); return; }
		if (o.headersSignals > 1) { c.fail("signals", where + ": headersCompleted() emitted " + num(o.headersSignals) + " times"); return; }
		if (want == HttpClient::NoError)
		{
			QByteArray body = s.kind == Step::Truncated ? s.msg.body.left(s.cut - s.msg.headWire.size()) : s.content;
			Hdrs h = s.msg.headers + s.msg.trailers;
			if (o.status != s.msg.status) { c.fail("status", where + ": status " + num(o.status) + ", expected " + num(s.msg.status)); return; }
			if (o.headers != h) { c.fail("headers", where + ": headers " + showHdrs(o.headers) + ", expected " + showHdrs(h)); return; }
			if (s.contentKnown || s.kind == Step::Truncated) { if (!(gz && !s.contentKnown)) c.eq(o.content, body, "content of " + where); }
			if (o.headersSignals != 1) { c.fail("signals", where + ": headersCompleted() emitted " + num(o.headersSignals) + " times"); return; }
			bool redirect = s.msg.status == 300 || s.msg.status == 301 || s.msg.status == 302 || s.msg.status == 303 || s.msg.status == 307;
			if (o.redirected != redirect) { c.fail("redirect", where + ": redirected() is " + num(o.redirected)); return; }
			if (redirect && o.location != headerValue(h, "location")) { c.fail("redirect", where + ": redirectionLocation() is \"" + show(o.location) + "\""); return; }
			if (c.failed()) return;
		}
		else if (o.headersSignals && !gz && s.kind != Step::Garbage && !s.msg.body.startsWith(o.content)) { c.fail("content", where + ": content of a failed response is not what the server sent"); return; }
		else if (!headDone && s.kind == Step::Truncated && s.cut < s.msg.headWire.size() - 1 && o.headersSignals) { c.fail("signals", where + ": headersCompleted() for an incomplete head"); return; }
		// The connection used.
		if (s.kind != Step::Refused)
		{
			RawServer& t = servers[s.server]; int at = stepOf[s.server].lastIndexOf(i);
			if (at < 0) { lastConn = -1; if (!o.aborted) { c.fail("request", where + " never reached the server"); return; } }
			else
			{
				const SReq& r = t.requests.at(at); Hdrs hs; hs << Hdr("Host", t.authority()); hs += s.headers;
				QByteArray data = dropsData(s.method, s.generic) && !s.follow ? QByteArray() : s.data;
				if (s.kind != Step::Early) c.eq(r.head + r.body, refRequest(s.method, s.target.wire(), hs, data), where + " on the wire"); else if (r.target != s.target.wire()) c.fail("request", "target of the early request");
				if (c.failed()) return;
				bool same = r.conn == lastConn && s.server == lastServer; 
				if (mustReuse && lastServer == s.server && !same && s.keepAlive != 0 && s.keepAlive != 1 && !s.expired) { c.fail("reuse", where + " used a new connection although the last one could be kept"); return; }
				if (same && !canReuse) { c.fail("reuse", where + " was sent on a connection that was to be closed"); return; }
				if (same && s.expired) { c.fail("reuse", where + " was sent on a connection kept longer than the keep-alive timeout"); return; }
				if (same) c.label("connection reused");
				lastConn = r.conn;
			}
			lastServer = s.server; bool failed = o.error != HttpClient::NoError; bool kept = s.kind == Step::Complete && !failed && s.ans.end == SAns::Keep && s.keepAlive != 0;
			bool conn = s.msg.version == "HTTP/1.1" ? !ieq(headerValue(s.msg.headers, "connection").trimmed(), "close") : ieq(headerValue(s.msg.headers, "connection").trimmed(), "keep-alive");
			canReuse = kept && conn; mustReuse = canReuse && s.msg.keepAlive && at >= 0 && (!s.msg.head || s.msg.framing != Msg::NoBody);
			if (s.msg.head && s.msg.framing == Msg::Eof) mustReuse = false;
		}
		else { mustReuse = canReuse = false; lastServer = -1; }
	}
	settle(4);
	for (int i = 0; i < steps.size(); ++i) if (d.got.at(i).finished != 1) { c.fail("finish", "request " + num(i) + " finished " + num(d.got.at(i).finished) + " times"); return; }
	if (d.finishes != steps.size()) { c.fail("finish", num(d.finishes) + " finished() signals for " + num(steps.size()) + " requests"); return; }
	for (RawServer& t : servers) for (const SReq& r : t.requests) { if (r.target == "/refused") c.fail("refused", "a request made while another was pending was sent"); if (r.bad) c.fail("request", "malformed request: " + r.why); }
	if (servers[0].stray || servers[1].stray) c.fail("request", "a request arrived before the response to the previous one");
	if (d.client.responsePending()) c.fail("finish", "responsePending() after all requests finished");
}

}

int main(int argc, char** argv)
{
	std::vector<pbt::Check> checks = {
		{"C17", "One to six requests on one writer over in-memory devices (sometimes changing device), or one to five requests on one client to two or three loopback servers (IPv4, IPv6, port 80 where available) that close or keep the connection; methods, encoded URLs, header blocks to beyond 16 KiB, bodies around the 4096-byte threshold and up to 100 KB. The bytes received must equal an independently built message. Non-trivial: a client case, or more than an empty request.",
			80000, 1500000, c17, 60, 8, {"URLs are generated in normalized encoding.", "No Host or Content-Length header is given by the caller."}, {"request writer", "client", "body of 4 KiB or more", "head beyond 16 KiB", "device changed", "empty path", "same host, other port", "same port, other host"}},
		{"C18", "One to five requests on one client to two scripted loopback servers; each answered by a generated response (every framing, HEAD, interim responses, redirects absolute and relative), a truncated or invalid one, a refused connection, an early response, or silence; segmented with pauses; content kept, consumed per signal, or polled with a limited read buffer; abort() at once, later, from headersCompleted or contentReadyRead; the next request issued from the event loop, from the finished handler or by followRedirection(); keep-alive timeouts, with the clock moved on by up to weeks between requests. Non-trivial: more than one request or segment, or a failure.",
			30000, 600000, [](Gen& g, Ctx& c) { run(g, c, false); }, 90, 8, {"The server does not close an idle connection at the very moment a request is sent on it.", "101 is not an interim response."}, {"complete", "truncated", "garbage", "refused", "hang", "100 Continue", "several 100 Continue", "request from a finished handler", "limited read buffer", "request while pending", "redirection followed", "relative location", "aborted", "connection reused", "keep-alive timeout passed", "time passes", "HEAD", "response before the request was read", "same host, other port", "same port, other host"}},
		{"C19", "One to four responses on one client, each with a body of up to some hundred kilobytes: gzip-compressed (all levels, strategies, flush patterns, several members, corrupt or truncated ones), labelled gzip without being it (among them bare zlib and deflate streams), compressed but not labelled, or plain; every framing and segmentation; aborted and truncated transfers in between; limited read buffers. Content must equal the original body. Non-trivial: more than one response or segment.",
			28000, 500000, [](Gen& g, Ctx& c) { run(g, c, true); }, 90, 8, {"The content of a corrupt gzip stream is unspecified; only what follows it is checked.", "A body counts as not gzip when its first two bytes are not the gzip magic."}, {"gzip", "stored blocks", "sync flushes", "expansion over 100 times", "several gzip members", "empty gzip", "corrupt gzip", "labelled gzip, is not", "half a gzip magic", "labelled gzip, is zlib or deflate", "gzip data, labelled otherwise", "aborted", "truncated"}},
	};
	return pbt::main(argc, argv, checks);
}

#include "check_client.moc"
