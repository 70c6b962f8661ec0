// C03 successive requests, C04 response framing, C05 keep-alive, C06 call orders, reentrancy and disconnects.
#include "plan.h"
#include <QtCore/QStringList>
#include <algorithm>

using namespace Pillow;

namespace {

const QByteArray kContinue("HTTP/1.1 100 Continue\r\n\r\n");

class Probe : public QObject {
	Q_OBJECT
public:
	int ready, completed, closed;
	std::function<void(HttpConnection*)> onReady, onCompleted, onClosed;
	Probe(HttpConnection* c) : ready(0), completed(0), closed(0)
	{
		connect(c, SIGNAL(requestReady(Pillow::HttpConnection*)), this, SLOT(isReady(Pillow::HttpConnection*)));
		connect(c, SIGNAL(requestCompleted(Pillow::HttpConnection*)), this, SLOT(isDone(Pillow::HttpConnection*)));
		connect(c, SIGNAL(closed(Pillow::HttpConnection*)), this, SLOT(isShut(Pillow::HttpConnection*)));
	}
public slots:
	void isReady(Pillow::HttpConnection* c) { ++ready; if (onReady) onReady(c); }
	void isDone(Pillow::HttpConnection* c) { ++completed; if (onCompleted) onCompleted(c); }
	void isShut(Pillow::HttpConnection* c) { ++closed; if (onClosed) onClosed(c); }
};

bool expectsContinue(const Req& r) { return ieq(headerValue(r.headers, "expect"), "100-continue") && !r.body.isEmpty(); }

// One connection with one or two devices.
struct Rig {
	PipeDevice in, out; bool same;
	Rig(bool same) : same(same) {}
	PipeDevice& o() { return same ? in : out; }
	void init(HttpConnection& c) { c.initialize(&in, same ? &in : &out); }
	bool open() { return in.isOpen() && o().isOpen(); }
	bool shut() { return !in.isOpen() && !o().isOpen(); }
	void drainAll() { for (int i = 0; i < 10000 && !o().pending.isEmpty(); ++i) o().drain(1 << 20); }
};

typedef QVector<QPair<QString, QString> > Params;
Params paramsOf(const QByteArray& query)
{
	Params m; int pos = 0; auto dec = [](const QByteArray& b) { QByteArray d = refPercentDecode(b); return QString::fromUtf8(d.constData(), d.size()); };
	while (pos < query.size())
	{
		int e = query.indexOf('&', pos); if (e < 0) e = query.size();
		QByteArray piece = query.mid(pos, e - pos); int eq = piece.indexOf('=');
		m << (eq < 0 ? qMakePair(dec(piece), QString()) : qMakePair(dec(piece.left(eq)), dec(piece.mid(eq + 1))));
		pos = e + 1;
	}
	return m;
}

//
// C04
//
void oneResponse(Gen& g, Ctx& c, const Req& r, const Plan& p, bool hold, bool same, QByteArray* head)
{
	Rig rig(same); HttpConnection conn; Probe probe(&conn);
	rig.o().hold = hold;
	rig.init(conn);
	rig.in.feed(r.wire());
	if (!c.eqn(probe.ready, 1, "announcements")) return;
	Model m = modelOf(r, p);
	QByteArray before = rig.o().all();
	p.run(&conn);
	if (!c.eqn(probe.completed, m.done ? 1 : 0, "requestCompleted signals")) return;
	if (!m.done)
	{
		c.label("response left incomplete");
		conn.close();
	}
	else if (m.done && !m.keep) rig.drainAll();
	QByteArray wire = rig.o().all().mid(before.size());
	if (head) { int e = wire.indexOf("\r\n\r\n"); *head = wire.left(e < 0 ? wire.size() : e + 4); }
	Resp resp; QByteArray err; int pos = 0;
	ParseResult pr = readResponse(wire, pos, m.head, true, resp, err);
	if (pr == Bad) { c.fail("malformed response", "malformed response: " + err + "\nwire: " + show(wire, 1200)); return; }
	if (m.done)
	{
		if (pr != Ok) { c.fail("incomplete response", "the response is incomplete: " + err + "\nwire: " + show(wire, 1200)); return; }
		c.check(pos == wire.size(), "bytes after the response", "bytes follow the response: " + show(wire.mid(pos), 200));
		compareResponse(c, resp, r, p, m, "");
		if (m.chunked && !m.head) c.check(resp.chunks.size() <= m.accepted.size() || resp.chunks.size() > 0, "chunks", "chunks");
	}
	else
	{
		if (!c.check(!resp.head.isEmpty(), "no head", "no response head on the wire: " + show(wire, 300))) return;
		if (!compareResponse(c, resp, r, p, m, "incomplete response: ", true)) return;
		// What was accepted so far is on the wire, and nothing else.
		QByteArray rest = wire.mid(resp.head.size()), want;
		if (m.chunked)
		{
			int at = 0;
			while (at < rest.size())
			{
				int e = rest.indexOf("\r\n", at); bool ok = false; int n = e < 0 ? -1 : rest.mid(at, e - at).toInt(&ok, 16);
				if (!ok || n <= 0 || rest.mid(e + 2 + n, 2) != "\r\n") { c.fail("chunk", "bad chunk at byte " + num(at) + " of " + show(rest, 400)); return; }
				want += rest.mid(e + 2, n); at = e + 2 + n + 2;
			}
			rest = want;
		}
		c.eq(rest, m.body, "content on the wire of an incomplete response");
	}
}

void c04(Gen& g, Ctx& c)
{
	ReqOpts ro; ro.maxBody = 200; ro.longFields = false; ro.expect = false;
	Req r = genRequest(g, ro);
	if (g.chance(1, 5)) r.method = "HEAD";
	PlanOpts po; po.oddLengths = g.chance(2, 3); po.completes = false;
	if (g.chance(1, 12)) po.maxPiece = 300000;
	Plan p = genPlan(g, po);
	c.desc(r.method + " " + r.version + " " + showHdrs(r.headers) + "\n" + p.text());
	Model m = modelOf(r, p);
	bool hold = g.chance(1, 2), same = g.chance(1, 2);
	if (m.head) c.label("HEAD"); else if (m.chunked) c.label("chunked"); else if (m.length >= 0) c.label("known length"); else c.label("close-delimited");
	if (m.length > 2147483647ll) c.label("length beyond 2 GiB");
	if (m.status != p.status) c.label("unknown status");
	int offered = p.whole ? p.content.size() : 0; for (const QByteArray& x : p.pieces) offered += x.size();
	if (!m.head && m.body.size() < offered) c.label("content refused");
	if (p.headers.size() > 0 || p.pieces.size() > 1) c.nontrivial();
	QByteArray head;
	oneResponse(g, c, r, p, hold, same, &head);
	if (c.failed()) return;
	if (r.method == "GET" || g.chance(1, 4))
	{
		// The head must not depend on the method being HEAD.
		Req h = r; h.method = r.method == "HEAD" ? "GET" : "HEAD"; QByteArray other;
		oneResponse(g, c, h, p, hold, same, &other);
		if (!c.failed()) c.eq(r.method == "HEAD" ? head : other, r.method == "HEAD" ? other : head, "head of the response to HEAD compared with that to GET");
		c.label("HEAD compared with GET");
	}
}

//
// C05
//
void c05(Gen& g, Ctx& c)
{
	Rig rig(g.chance(1, 2)); HttpConnection conn; Probe probe(&conn);
	rig.o().hold = g.chance(2, 3);
	rig.init(conn);
	int n = 1 + int(g.size(5));
	ReqOpts ro; ro.maxBody = 100; ro.longFields = false; ro.expect = false; ro.absoluteUris = false;
	int consumed = 0;
	for (int i = 0; i < n && !c.failed(); ++i)
	{
		Req r = genRequest(g, ro);
		if (g.chance(1, 2))
		{
			for (int k = r.headers.size() - 1; k >= 0; --k) if (ieq(r.headers.at(k).first, "connection")) { r.headers.remove(k); r.pads.remove(k); }
			r.headers << Hdr(g.pickB({"Connection", "connection", "CONNECTION", "conNection"}), g.pickB({"close", "keep-alive", "Close", "Keep-Alive", "KEEP-ALIVE", "CLOSE", "cLoSe", "upgrade", "", "keepalive", "closed", "keep-aliv"}));
			r.pads.resize(r.headers.size() - 1); for (int k = 0; k < r.pads.size(); ++k) if (r.pads.at(k).isNull()) r.pads[k] = " ";
			r.pads << " ";
		}
		PlanOpts po; po.maxPiece = 300;
		Plan p = genCompletePlan(g, r, po);
		Model m = modelOf(r, p);
		c.desc("request " + num(i) + ": " + r.method + " " + r.version + " Connection: " + show(headerValue(r.headers, "connection")) + "; " + p.text() + (m.keep ? " -> keep" : " -> close") + "\n");
		int before = probe.ready;
		rig.in.feed(r.wire());
		if (!c.eqn(probe.ready, before + 1, "announcements of a request on a kept connection")) return;
		// Answer step by step; some of the output leaves in between.
		for (int s = 0; s < p.steps(); ++s)
		{
			p.step(&conn, s);
			if (g.chance(1, 4)) rig.o().drain(int(g.u(1, 200)));
			if (s < m.doneAt && !c.check(rig.open(), "closed before the response was complete", "a device was closed before the response was complete")) return;
		}
		if (!c.eqn(probe.completed, before + 1, "requestCompleted signals")) return;
		c.label(m.keep ? "kept" : "closed"); if (i > 0 || !m.keep) c.nontrivial();
		if (r.version == "HTTP/1.0" && m.keep) c.label("kept on HTTP/1.0");
		if (!m.keep)
		{
			while (!rig.o().pending.isEmpty())
			{
				if (!c.check(rig.o().isOpen() && probe.closed == 0, "closed before everything was delivered", "closed while " + num(rig.o().pending.size()) + " bytes were still to be delivered")) return;
				rig.o().drain(int(g.u(1, 400)));
			}
		}
		QByteArray all = rig.o().all(), err; Resp resp; int pos = consumed;
		ParseResult pr = readResponse(all, pos, m.head, !m.keep, resp, err);
		if (pr != Ok) { c.fail("response", "response not complete and well-formed: " + err); return; }
		consumed = pos;
		if (!compareResponse(c, resp, r, p, m, "")) return;
		if (m.keep)
		{
			c.eqn(conn.state(), HttpConnection::ReceivingHeaders, "state after a response that keeps the connection");
			c.check(rig.open(), "closed although kept", "a device was closed although the connection is to be kept");
			c.eqn(probe.closed, 0, "closed signals although kept");
			if (g.chance(1, 4)) rig.drainAll();
			if (g.chance(1, 4)) { settle(1); c.check(rig.open(), "closed although kept", "a device was closed although the connection is to be kept"); }
		}
		else
		{
			c.eqn(conn.state(), HttpConnection::Closed, "state after a response that closes was delivered");
			c.check(rig.shut(), "left open", "a device was left open although the response announces the close");
			c.eqn(probe.closed, 1, "closed signals");
			c.eqn(all.size(), consumed, "bytes sent in all");
			return;
		}
	}
}

//
// C03
//
struct Exchange { Req req; Plan plan; bool sync, readParams, setParam; };

// Very many small requests at once, each answered at once.
void burst(Gen& g, Ctx& c)
{
	Rig rig(g.chance(1, 2)); HttpConnection conn; Probe probe(&conn); int n = 500 + int(g.size(9000)); bool bodies = g.chance(1, 3), nested = g.chance(1, 2);
	c.desc("burst of " + num(n) + " requests"); c.label("burst"); c.nontrivial();
	probe.onReady = [&](HttpConnection*) { if (!c.eq(conn.requestPath(), "/" + num(probe.ready), "path")) return; conn.writeResponse(200, HttpHeaderCollection(), conn.requestPath() + conn.requestContent()); };
	if (nested) rig.init(conn);
	QByteArray wire, want;
	for (int i = 1; i <= n; ++i)
	{
		QByteArray b = bodies && i % 3 == 0 ? num(i) : QByteArray(), path = "/" + num(i);
		wire += (bodies ? "POST " : "GET ") + path + " HTTP/1.1\r\n" + (b.isEmpty() ? QByteArray() : "Content-Length: " + num(b.size()) + "\r\n") + "\r\n" + b;
		b = path + b; want += "HTTP/1.1 200 OK\r\nContent-Length: " + num(b.size()) + "\r\nContent-Type: text/plain\r\n\r\n" + b;
	}
	if (nested) rig.in.feed(wire); else { rig.in.in = wire; rig.init(conn); }
	for (int i = 0; i < n + 10 && probe.completed < n && !c.failed(); ++i) settle(1);
	c.eqn(probe.ready, n, "requests of a burst announced"); c.eqn(probe.completed, n, "requests of a burst completed");
	if (!c.failed() && rig.o().all() != want) c.fail("burst responses", "the responses to a burst of requests differ from what was written, first at byte " + num(std::mismatch(want.begin(), want.begin() + qMin(want.size(), rig.o().all().size()), rig.o().all().begin()).first - want.begin()));
	probe.onReady = nullptr;
}

void c03(Gen& g, Ctx& c)
{
	if (g.chance(1, 1000)) return burst(g, c);
	HttpConnection conn; Probe probe(&conn);
	int sessions = 1 + int(g.weighted({4, 2, 1}));
	for (int session = 0; session < sessions && !c.failed(); ++session)
	{
		Rig rig(g.chance(1, 2)); rig.o().hold = g.chance(1, 4);
		int n = 1 + int(g.size(g.chance(1, 10) ? 30 : 7));
		QVector<Exchange> x; QByteArray wire; QVector<int> ends;
		bool mostlySync = g.chance(1, 3), last = false; int expectCount = n;
		ReqOpts ro; ro.maxBody = g.chance(1, 8) ? 60000 : 600;
		for (int i = 0; i < n; ++i)
		{
			Exchange e; e.req = genRequest(g, ro);
			if (e.req.version != "HTTP/1.1" && g.chance(1, 2)) e.req.version = "HTTP/1.1";
			if (i < n - 1 && g.chance(3, 4)) for (int k = 0; k < e.req.headers.size(); ++k) if (ieq(e.req.headers.at(k).first, "connection")) e.req.headers[k].second = "keep-alive";
			PlanOpts po; po.keepable = g.chance(5, 6); po.maxPiece = 400;
			e.plan = genCompletePlan(g, e.req, po);
			e.sync = mostlySync || g.chance(1, 2); e.readParams = g.chance(1, 2); e.setParam = g.chance(1, 3);
			if (e.req.headWire().size() > 32768) return;
			x << e; wire += e.req.wire(); ends << wire.size();
			if (!last && !modelOf(e.req, e.plan).keep) { last = true; expectCount = i + 1; }
		}
		bool aborted = g.chance(1, 4);
		QVector<QByteArray> pieces = g.chance(1, 3) ? QVector<QByteArray>() << wire : g.cut(wire, 300);
		if (g.chance(1, 6)) { pieces.clear(); for (const Exchange& e : x) pieces << e.req.wire(); }
		if (n > 1) c.label("several requests"); if (pieces.size() == 1 && n > 1) c.label("all in one read"); if (session) c.label("re-initialized connection");
		if (n > 1 || session) c.nontrivial();
		c.desc("session " + num(session) + ": " + num(n) + " requests in " + num(pieces.size()) + " pieces" + (aborted ? ", client aborts" : "") + "\n");
		for (int i = 0; i < n && i < 8; ++i) c.desc(" " + show(x.at(i).req.wire(), 260) + "\n   " + (x.at(i).sync ? "at once: " : "later: ") + x.at(i).plan.text() + "\n");

		int current = -1, stepAt = 0, done = 0, base = probe.ready, baseClosed = probe.closed; bool busy = false; int fed = 0;
		auto verify = [&](int i, const char* when) {
			compareSeen(c, Seen::of(&conn), x.at(i).req, QByteArray(when) + "request " + num(i) + ": ");
		};
		auto checkParams = [&](int i) {
			Params want = paramsOf(x.at(i).req.query); const HttpParamCollection& ps = conn.requestParams();
			bool eq = ps.size() == want.size(); for (int k = 0; eq && k < ps.size(); ++k) eq = ps.at(k).first == want.at(k).first && ps.at(k).second == want.at(k).second;
			if (!eq) { QByteArray m; for (int k = 0; k < ps.size(); ++k) m += show(ps.at(k).first.toUtf8(), 60) + "=" + show(ps.at(k).second.toUtf8(), 60) + " & "; c.fail("params of another request", "request " + num(i) + ": parameters are " + m + ", query string is " + show(x.at(i).req.query, 300)); }
			auto dec = [](const QByteArray& b) { QByteArray d = refPercentDecode(b); return QString::fromUtf8(d.constData(), d.size()); };
			c.check(conn.requestPathDecoded() == dec(x.at(i).req.path), "decoded path of another request", "request " + num(i) + ": decoded path " + show(conn.requestPathDecoded().toUtf8(), 100));
			c.check(conn.requestUriDecoded() == dec(x.at(i).req.uri), "decoded uri of another request", "request " + num(i) + ": decoded uri " + show(conn.requestUriDecoded().toUtf8(), 100));
			c.check(conn.requestQueryStringDecoded() == dec(x.at(i).req.query), "decoded query of another request", "request " + num(i) + ": decoded query " + show(conn.requestQueryStringDecoded().toUtf8(), 100));
			c.check(conn.requestFragmentDecoded() == dec(x.at(i).req.fragment), "decoded fragment of another request", "request " + num(i) + ": decoded fragment " + show(conn.requestFragmentDecoded().toUtf8(), 100));
		};
		auto advance = [&]() {
			// One step of the pending response.
			int i = current, s = stepAt++; busy = stepAt < x.at(i).plan.steps();
			if (s == 0) verify(i, "when answered, ");
			x.at(i).plan.step(&conn, s);
		};
		probe.onReady = [&](HttpConnection*) {
			if (c.failed()) return;
			++current;
			if (!c.check(current < expectCount, "announced after the end", "a request was announced after the response that ends the connection, or more requests than were sent")) { --current; return; }
			if (!c.eqn(done, current, "requests completed when request " + num(current) + " was announced")) return;
			if (!c.check(fed >= ends.at(current), "announced early", "request " + num(current) + " was announced before its last byte arrived")) return;
			verify(current, "");
			if (x.at(current).readParams) checkParams(current);
			if (x.at(current).setParam) { conn.setRequestParam("leak" + QString::number(current), "value"); conn.setRequestParam("a", "changed"); }
			stepAt = 0; busy = true;
			if (x.at(current).sync && !c.failed()) { int mine = current; while (current == mine && busy && !c.failed()) advance(); }
		};
		probe.onCompleted = [&](HttpConnection*) { ++done; c.eqn(done, current + 1, "requests completed"); };
		probe.onClosed = [&](HttpConnection*) {};
		rig.init(conn);
		int next = 0; int stopAt = aborted ? int(g.u(0, uint32_t(pieces.size()))) : pieces.size();
		while (!c.failed() && rig.in.isOpen() && (next < stopAt || (busy && current >= 0)))
		{
			bool doFeed = next < stopAt && (!busy || g.chance(1, 2));
			if (aborted && next >= stopAt) break;
			if (doFeed) { fed += pieces.at(next).size(); rig.in.feed(pieces.at(next)); ++next; }
			else if (busy) advance();
			if (g.chance(1, 12)) settle(1);
			if (rig.o().hold && g.chance(1, 3)) rig.o().drain(int(g.u(1, 3000)));
		}
		if (c.failed()) { probe.onReady = nullptr; probe.onCompleted = nullptr; return; }
		if (!aborted)
		{
			rig.drainAll(); settle(1);
			c.eqn(probe.ready - base, expectCount, "requests announced");
			c.eqn(done, expectCount, "requests completed");
			c.eqn(probe.closed - baseClosed, last ? 1 : 0, "closed signals at the end");
			c.eqn(conn.state(), last ? HttpConnection::Closed : HttpConnection::ReceivingHeaders, "state at the end");
		}
		// The wire.
		QByteArray all = rig.o().all(), err; int pos = 0;
		for (int i = 0; i < done && !c.failed(); ++i)
		{
			if (expectsContinue(x.at(i).req)) { if (!c.eq(all.mid(pos, kContinue.size()), kContinue, "100 Continue before response " + num(i))) break; pos += kContinue.size(); c.label("100-continue"); }
			Model m = modelOf(x.at(i).req, x.at(i).plan); Resp resp;
			ParseResult pr = readResponse(all, pos, m.head, !m.keep, resp, err);
			if (pr != Ok) { c.fail("response " , "response " + num(i) + ": " + err + "\nwire: " + show(all, 1500)); break; }
			compareResponse(c, resp, x.at(i).req, x.at(i).plan, m, "response " + num(i) + ": ");
		}
		if (!c.failed() && !aborted) c.eqn(all.size(), pos, "bytes on the wire");
		probe.onReady = nullptr; probe.onCompleted = nullptr;
		if (c.failed()) return;
		// End of the session.
		if (rig.in.isOpen()) { if (g.chance(1, 2)) rig.in.peerClose(); else conn.close(); }
		if (aborted) c.label("client aborted");
		c.eqn(conn.state(), HttpConnection::Closed, "state after the session");
		c.eqn(probe.closed - baseClosed, 1, "closed signals of a session");
		if (g.chance(1, 3)) settle(1);
	}
}

//
// C06
//
struct Fuzz {
	Gen& g; Ctx& c; HttpConnection conn; Probe probe; std::unique_ptr<Rig> rig;
	QByteArray stream; int at, depth, budget; bool finished; int closedBase, readyBase, completedBase; int sizeAtClose; bool log;
	// The response under way: where it begins on the wire and what it has to contain given the calls that were valid.
	int respAt; bool started, isHead, is11, chunked; long long length; QByteArray body;
	Fuzz(Gen& gen, Ctx& ctx) : g(gen), c(ctx), probe(&conn), at(0), depth(0), budget(0), finished(false), closedBase(0), readyBase(0), completedBase(0), sizeAtClose(-1), log(true)
	{
		probe.onReady = [this](HttpConnection*) {
			c.desc("[ready]"); if (finished) c.fail("signal after closed", "requestReady after closed");
			c.eqn(probe.ready - readyBase, probe.completed - completedBase + 1, "requestReady signals (one more than requestCompleted)");
			c.eqn(conn.state(), HttpConnection::SendingHeaders, "state in requestReady");
			respAt = rig->o().all().size(); started = false; body.clear(); isHead = conn.requestMethod() == "HEAD"; is11 = conn.requestHttpVersion() == "HTTP/1.1";
			nested();
		};
		probe.onCompleted = [this](HttpConnection*) {
			c.desc("[completed]"); if (finished) c.fail("signal after closed", "requestCompleted after closed");
			c.eqn(probe.completed - completedBase, probe.ready - readyBase, "requestCompleted signals (as many as requestReady)");
			if (!c.check(started, "completed without a response", "requestCompleted although no response was begun")) return;
			QByteArray all = rig->o().all(), err; Resp resp; int pos = respAt;
			if (readResponse(all, pos, isHead, length < 0 && !chunked, resp, err) != Ok || pos != all.size()) { c.fail("completed response", "the response is not complete and well-formed although requestCompleted: " + err + "; wire " + show(all.mid(respAt), 600)); return; }
			c.eq(resp.body, isHead ? QByteArray() : body, "content of a completed response");
			nested();
		};
		probe.onClosed = [this](HttpConnection*) {
			c.desc("[closed]"); if (finished) c.fail("closed twice", "closed emitted twice");
			finished = true; sizeAtClose = rig->o().all().size();
			c.eqn(conn.state(), HttpConnection::Closed, "state in closed");
			c.check(rig->in.isOpen() == false || true, "", "");
			nested();
		};
	}
	void nested() { if (c.failed() || depth >= 3) return; ++depth; int n = int(g.weighted({6, 3, 2, 1})); for (int i = 0; i < n; ++i) act(); --depth; }
	void guarded(const char* what, bool valid, const std::function<void()>& call)
	{
		HttpConnection::State s = conn.state(); QByteArray before = rig->o().all(); int a = probe.ready, b = probe.completed, d = probe.closed;
		call();
		if (valid || c.failed()) return;
		c.label("call in the wrong state");
		c.eqn(conn.state(), s, QByteArray("state after ") + what + " in state " + num(s));
		c.eq(rig->o().all(), before, QByteArray("wire after ") + what + " in state " + num(s));
		c.check(a == probe.ready && b == probe.completed && d == probe.closed, "signal", QByteArray("a signal was emitted by ") + what + " in state " + num(s));
	}
	// The model of a response: whether the call completes the response; calls in other states change nothing.
	void begin(const Hdrs& h, bool whole, const QByteArray& content)
	{
		started = true; body.clear(); length = whole ? content.size() : -1;
		if (hasHeader(h, "content-length")) length = headerValue(h, "content-length").toLongLong();
		chunked = ieq(headerValue(h, "transfer-encoding"), "chunked") && is11 && length < 0;
	}
	bool finishes(const QByteArray& content)
	{
		if (length == 0 || isHead) return true;
		if (content.isEmpty() || (length > 0 && body.size() + content.size() > length)) return false;
		body += content; return body.size() == length;
	}
	void outcome(const char* what, int completedBefore, bool finishes)
	{
		if (c.failed()) return;
		if (finishes) c.check(probe.completed > completedBefore, "not completed", QByteArray(what) + " did not complete the response although nothing is missing");
		else { c.check(probe.completed == completedBefore, "completed early", QByteArray(what) + " completed the response although it is not whole"); c.eqn(conn.state(), HttpConnection::SendingContent, QByteArray("state after ") + what); c.label("response in pieces"); }
	}
	Hdrs someHeaders() { Hdrs h; if (g.chance(1, 3)) h << Hdr("Content-Length", num(g.u(0, 20))); if (g.chance(1, 4)) h << Hdr("Transfer-Encoding", "chunked"); if (g.chance(1, 5)) h << Hdr("Connection", "close"); return h; }
	void act()
	{
		if (budget-- <= 0 || c.failed()) return;
		HttpConnection::State s = conn.state(); bool sh = s == HttpConnection::SendingHeaders, sc = s == HttpConnection::SendingContent;
		switch (g.weighted({10, 6, 4, 5, 3, 1, 1, 3, 1, 1}))
		{
		case 0: if (rig->in.isOpen()) { int n = int(g.chance(1, 2) ? g.u(1, 20) : g.u(1, 2000)); QByteArray d = stream.mid(at, n); at += d.size(); c.desc(" feed(" + num(d.size()) + ")"); if (!d.isEmpty()) rig->in.feed(d); } break;
		case 1: { QByteArray body = g.bytes(g.size(30)); Hdrs h = someHeaders(); c.desc(" writeResponse(" + showHdrs(h) + "," + num(body.size()) + ")"); int done = probe.completed; bool f = false; if (sh) { begin(h, true, body); f = finishes(body); } guarded("writeResponse", sh, [&] { conn.writeResponse(200, toColl(h), body); }); if (sh) outcome("writeResponse", done, f); break; }
		case 2: { Hdrs h = someHeaders(); c.desc(" writeHeaders(" + showHdrs(h) + ")"); int done = probe.completed; bool f = false; if (sh) { begin(h, false, QByteArray()); f = length == 0 || isHead; } int status = int(g.u(200, 206)); if (status == 204) status = 404; guarded("writeHeaders", sh, [&] { conn.writeHeaders(status, toColl(h)); }); if (sh) outcome("writeHeaders", done, f); break; }
		case 3: { QByteArray body = g.bytes(g.size(30)); c.desc(" writeContent(" + num(body.size()) + ")"); int done = probe.completed; bool f = sc && finishes(body); guarded("writeContent", sc, [&] { conn.writeContent(body); }); if (sc) outcome("writeContent", done, f); break; }
		case 4: c.desc(" endContent"); { int done = probe.completed; bool f = sc && length < 0; guarded("endContent", sc, [&] { conn.endContent(); }); if (sc) outcome("endContent", done, f); } break;
		case 5: c.desc(" close"); c.label(depth ? "close() inside a signal" : "close()"); conn.close(); c.eqn(conn.state(), HttpConnection::Closed, "state after close()"); break;
		case 6: c.desc(" peerClose"); c.label(depth ? "peer closes inside a signal" : "peer closes"); rig->in.peerClose(); break;
		case 7: { int n = int(g.u(1, 300)); rig->o().drain(n); rig->o().notify(); break; }
		case 8: if (depth == 0) settle(1); break;
		default: conn.flush(); break;
		}
	}
	void session(bool normal)
	{
		rig.reset(new Rig(g.chance(1, 2))); rig->o().hold = g.chance(1, 2);
		finished = false; at = 0; closedBase = probe.closed; readyBase = probe.ready; completedBase = probe.completed; sizeAtClose = -1;
		stream.clear(); int n = int(g.u(1, 6)); ReqOpts ro; ro.longFields = false; ro.maxBody = 300;
		for (int i = 0; i < n; ++i) { if (g.chance(1, 12)) stream += g.bytes(g.size(30)); stream += genRequest(g, ro).wire(); }
		budget = normal ? 0 : int(g.u(1, 60));
		c.desc("\nsession: ");
		rig->init(conn);
		if (normal)
		{
			int ready = probe.ready; Req r; r.method = "GET"; r.version = "HTTP/1.1"; r.uri = r.path = "/again"; r.headers << Hdr("A", "b");
			rig->in.feed(r.wire());
			if (!c.eqn(probe.ready, ready + 1, "announcements on a connection initialized again")) return;
			compareSeen(c, Seen::of(&conn), r, "initialized again: ");
			begin(Hdrs(), true, "fine"); finishes("fine"); conn.writeResponse(200, HttpHeaderCollection(), "fine");
			Resp resp; QByteArray err, all = rig->o().all(); int pos = 0;
			if (readResponse(all, pos, false, false, resp, err) != Ok) { c.fail("response", "response on a connection initialized again: " + err); return; }
			c.eq(all, "HTTP/1.1 200 OK\r\nContent-Length: 4\r\nContent-Type: text/plain\r\n\r\nfine", "response on a connection initialized again");
			c.eqn(conn.state(), HttpConnection::ReceivingHeaders, "state on a connection initialized again");
		}
		while (budget > 0 && !c.failed()) act();
		if (c.failed()) return;
		// Quiesce: everything written is delivered.
		for (int i = 0; i < 50; ++i) { rig->drainAll(); if (!rig->o().notify()) break; }
		settle(1);
		HttpConnection::State s = conn.state();
		c.check(s != HttpConnection::Flushing && s != HttpConnection::Completed && s != HttpConnection::Uninitialized, "stuck", "the connection is stuck in state " + num(s));
		if (!rig->in.isOpen()) c.eqn(s, HttpConnection::Closed, "state after the input device closed");
		if (s == HttpConnection::ReceivingHeaders || s == HttpConnection::ReceivingContent) c.eqn(rig->in.in.size(), 0, "bytes left unread while receiving");
		if (c.failed()) return;
		if (s == HttpConnection::SendingHeaders)
		{
			int done = probe.completed; begin(Hdrs(), true, "x"); finishes("x"); conn.writeResponse(200, HttpHeaderCollection(), "x");
			c.check(probe.completed > done, "response not completed", "a pending request could not be answered any more");
		}
		if (c.failed()) return;
		if (!finished) { if (g.chance(1, 2)) conn.close(); else rig->in.peerClose(); }
		c.eqn(probe.closed - closedBase, 1, "closed signals");
		c.check(rig->shut(), "device left open", "a device is open although the connection is closed");
		c.eqn(conn.state(), HttpConnection::Closed, "state of a closed connection");
		int ready = probe.ready, completed = probe.completed;
		// Nothing works any more.
		conn.writeResponse(200); conn.writeHeaders(200); conn.writeContent("x"); conn.endContent(); conn.close(); conn.flush();
		settle(1);
		c.check(ready == probe.ready && completed == probe.completed && probe.closed - closedBase == 1, "signal after closed", "a signal was emitted on a closed connection");
		c.eqn(rig->o().all().size(), sizeAtClose, "bytes written by the time closed was emitted");
	}
};

void c06(Gen& g, Ctx& c)
{
	Fuzz f(g, c);
	int n = int(g.u(1, 3));
	for (int i = 0; i < n && !c.failed(); ++i) { f.session(false); if (i) c.label("re-initialized connection"); }
	if (!c.failed()) f.session(true);
	c.nontrivial();
}

}

int main(int argc, char** argv)
{
	std::vector<pbt::Check> checks = {
		{"C03", "Sessions of one to 31 requests (methods, bodies, Expect, HTTP versions, Connection headers, response plans that keep or end the connection) on one connection object that is re-initialized for up to three clients; the bytes of all requests are cut at random and interleaved with the steps of the responses, which are given at once or later; clients abort at random. The oracle compares every announced request with the one generated (fields, headers, body, decoded fields, parameters, after handlers have set parameters), the announcement order, and the responses on the wire. Non-trivial: two or more requests or a re-initialized object.",
			80000, 1500000, c03, 60, 7, {"Responses are complete and nothing is called after their end."}, {"all in one read", "re-initialized connection", "client aborted", "100-continue", "several requests", "burst"}},
		{"C04", "One request (method, version, Connection header) and one sequence of response calls: status (known, unknown, negative), headers, whole content or pieces, Content-Length matching, absent, short, long, beyond 2 GiB, negative or invalid, chunked, pieces beyond the length, calls after the end. An independent reader parses the wire; a model gives status, headers, framing and accepted content; the head for HEAD is compared with that for GET. Non-trivial: the handler gives headers or several pieces.",
			250000, 6000000, c04, 40, 7, {"At most one Content-Type, Connection, Content-Length and Transfer-Encoding header per response; header names and values hold no line breaks; 1xx, 204 and 304 only without content."}, {"HEAD", "chunked", "known length", "close-delimited", "length beyond 2 GiB", "unknown status", "content refused", "HEAD compared with GET"}},
		{"C05", "Up to six requests on one connection with generated versions, Connection headers (any case, other values) and response plans; output is held back and leaves in pieces. A model decides keep or close; checked: the Connection header, the connection state, that it closes only when the last byte has left, and that the next request is served. Non-trivial: a second request, or a close.",
			150000, 4000000, c05, 40, 7, {"Connection headers hold a single option."}, {"kept", "closed", "kept on HTTP/1.0"}},
		{"C06", "Random interleavings of arriving bytes (valid and garbage requests), every response call in every state, close(), peer close, draining and event delivery, also from inside requestReady, requestCompleted and closed (up to three levels), over up to three sessions of a connection object, then a normal exchange on it. Invariants: no sanitizer report, no hang, calls in the wrong state change nothing then or later (a model says which calls complete the response and what every completed response contains), signals alternate, closed exactly once and last, no state is stuck, everything readable is read. Every case counts as non-trivial.",
			150000, 4000000, c06, 40, 7, {"The connection object is not destroyed from inside its own signals.", "The object is initialized again only after closed() has been delivered."}, {"close() inside a signal", "peer closes inside a signal", "call in the wrong state", "re-initialized connection"}},
	};
	return pbt::main(argc, argv, checks);
}

#include "check_session.moc"
